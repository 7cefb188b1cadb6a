----------------------------- MODULE JustKeyboard -----------------------------
(* Browser keyboard support of one app: which command a key press runs, given   *)
(* the ordered key binding contributions at that moment.                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Ids, Handled, Keys, Pairs, Ops,
          Behs     \* what the handler of a command does when it is run

VARIABLES st, act

None == "none"
\* a contribution is [i, key, mac]
Eff(s, c) == IF s.mac /\ c.mac # None THEN c.mac ELSE c.key
\* the position of the contribution that owns key k, 0 when there is none
Owner(s, k) ==
  LET I == {n \in DOMAIN s.reg : Eff(s, s.reg[n]) = k} IN
  IF I = {} THEN 0 ELSE CHOOSE n \in I : \A m \in I : n <= m
Hidden(s) == {n \in DOMAIN s.reg : Eff(s, s.reg[n]) # None /\ Owner(s, Eff(s, s.reg[n])) # n}
Has(xs, i) == \E n \in DOMAIN xs : xs[n].i = i

InitSt(cfg) == [reg |-> cfg.given, given |-> cfg.given, mac |-> cfg.mac, orig |-> TRUE,
                beh |-> [i \in Handled |-> "plain"]]

Quiet(s) == [s |-> s, out |-> [calls |-> <<>>, warned |-> 0]]
\* every change of the registry binds again, and warns of each hidden contribution
Change(s, xs) ==
  IF xs = s.reg THEN Quiet(s)
  ELSE LET s1 == [s EXCEPT !.reg = xs, !.orig = FALSE] IN
       [s |-> s1, out |-> [calls |-> <<>>, warned |-> Cardinality(Hidden(s1))]]

\* a handler may throw, remove its own contribution, add one, or change the key of its own
Ran(s, i) ==
  IF i \notin Handled THEN Quiet(s)
  ELSE CASE s.beh[i] = "drop" -> Change(s, SelectSeq(s.reg, LAMBDA c : c.i # i))
         [] s.beh[i] = "add"  -> IF Has(s.reg, "i3") THEN Quiet(s) ELSE Change(s, Append(s.reg, [i |-> "i3", key |-> "k1", mac |-> None]))
         [] s.beh[i] = "move" -> Change(s, [n \in DOMAIN s.reg |-> IF s.reg[n].i = i THEN [i |-> i, key |-> "k2", mac |-> None] ELSE s.reg[n]])
         [] OTHER -> Quiet(s)
Press(s, k) ==
  LET n == Owner(s, k) IN
  IF n = 0 THEN [s |-> s, out |-> [calls |-> <<>>, prevented |-> FALSE, errors |-> 0, warned |-> 0]]
  ELSE LET i == s.reg[n].i
           r == Ran(s, i) IN
       [s |-> r.s, out |-> [calls |-> IF i \in Handled THEN << [i |-> i, args |-> 0] >> ELSE <<>>,
                            prevented |-> TRUE, errors |-> IF i \in Handled THEN 0 ELSE 1, warned |-> r.out.warned]]

C(e) == [i |-> e.i, key |-> e.key, mac |-> e.mac]
Do(s, e) ==
  CASE e.op = "press"   -> Press(s, e.k)
    [] e.op = "handle"  -> Quiet([s EXCEPT !.beh[e.i] = e.b])
    [] e.op = "add"     -> IF Has(s.reg, e.i) THEN Quiet(s) ELSE Change(s, Append(s.reg, C(e)))
    [] e.op = "replace" -> Change(s, [n \in DOMAIN s.reg |-> IF s.reg[n].i = e.i THEN C(e) ELSE s.reg[n]])
    [] e.op = "remove"  -> Change(s, SelectSeq(s.reg, LAMBDA c : c.i # e.i))
    [] e.op = "clear"   -> LET s1 == [s EXCEPT !.reg = <<>>, !.orig = FALSE] IN Quiet(s1)
    [] e.op = "reset"   -> IF s.orig THEN Quiet(s)
                           ELSE LET s1 == [s EXCEPT !.reg = s.given, !.orig = TRUE] IN
                                [s |-> s1, out |-> [calls |-> <<>>, warned |-> Cardinality(Hidden(s1))]]

ObsOf(s) == [ids |-> [n \in DOMAIN s.reg |-> s.reg[n].i]]

--------------------------------------------------------------------------------
P(key, mac) == [key |-> key, mac |-> mac]
SomePairs == { P("k1", None), P("k2", None), P("k1", "k2"), P(None, "k1") }
FewPairs == { P("k1", None), P("k2", "k1") }
G(i, key, mac) == [i |-> i, key |-> key, mac |-> mac]
Givens == { <<>>, <<G("i1", "k1", None), G("i2", "k2", "k1")>> }
Inputs(s) ==
  [op : {"press"}, k : Keys]
  \cup {[op |-> "handle", i |-> i, b |-> b] : i \in Handled, b \in IF Behs = {"plain"} THEN {} ELSE Behs}
  \cup {[op |-> "add", i |-> i, key |-> p.key, mac |-> p.mac] : i \in Ids, p \in Pairs}
  \cup {[op |-> "replace", i |-> i, key |-> p.key, mac |-> p.mac] : i \in {j \in Ids : Has(s.reg, j)}, p \in Pairs}
  \cup {[op |-> "remove", i |-> i] : i \in {j \in Ids : Has(s.reg, j)}}
  \cup [op : {"reset"}]
Init == \E g \in Givens, m \in BOOLEAN :
  /\ st = InitSt([given |-> g, mac |-> m])
  /\ act = [in |-> [op |-> "new", cfg |-> [given |-> g, mac |-> m]], out |-> [calls |-> <<>>, warned |-> 0]]
Next == \E e \in Inputs(st) : LET r == Do(st, e) IN st' = r.s /\ act' = [in |-> e, out |-> r.out]
View == st

--------------------------------------------------------------------------------
TypeOK == \A j, k \in DOMAIN st.reg : st.reg[j].i = st.reg[k].i => j = k
\* C11: a press runs at most one command, that of the first contribution claiming the key
FirstOnly ==
  [][act'.in.op = "press" =>
       LET claims == {n \in DOMAIN st.reg : Eff(st, st.reg[n]) = act'.in.k} IN
       /\ act'.out.prevented <=> claims # {}
       /\ Len(act'.out.calls) <= 1
       /\ Len(act'.out.calls) = 1 =>
            \E n \in claims : (\A m \in claims : n <= m) /\ act'.out.calls[1].i = st.reg[n].i]_<<st, act>>
\* C11: whoever is hidden is reported, and is owner once those before it are gone
Reported == [][(act'.in.op # "press" /\ st'.reg # st.reg) => act'.out.warned = Cardinality(Hidden(st'))]_<<st, act>>

EmitInit == TLCGet("level") > 1 \/ PrintT("@I" \o ToJson([a |-> act, t |-> st, o |-> ObsOf(st)]))
EmitNext == PrintT("@T" \o ToJson([s |-> st, a |-> act', t |-> st', o |-> ObsOf(st')]))
================================================================================
