------------------------------ MODULE JustContrib ------------------------------
(* The command contributions and the key binding contributions of one app:      *)
(* for each, an ordered record where the first contribution of an id stays. A   *)
(* follower subscribed to both may contribute i2 when i1 comes: to the same     *)
(* registry, or to the other one.                                               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Regs, Ids, Cs, Batches, Ops

VARIABLES st, act

Has(xs, i) == \E k \in DOMAIN xs : xs[k].i = i
Without(xs, i) == SelectSeq(xs, LAMBDA x : x.i # i)

RECURSIVE AddAll(_, _)
AddAll(r, es) ==
  IF es = <<>> THEN r
  ELSE LET e == Head(es) IN
    AddAll(IF Has(r.xs, e.i) THEN [r EXCEPT !.dup = @ + 1] ELSE [r EXCEPT !.xs = Append(@, e)], Tail(es))

InitSt(cfg) == [cmd |-> cfg.cmd, key |-> cfg.key, cmd0 |-> cfg.cmd, key0 |-> cfg.key, touched |-> {}, fol |-> cfg.fol]

\* logs: how many errors and warnings the duplicates make
Logs(reg, n) == [error |-> IF reg = "cmd" THEN n ELSE 0, warn |-> IF reg = "key" THEN n ELSE 0]
Sum(l, m) == [error |-> l.error + m.error, warn |-> l.warn + m.warn]
Join(o, r) == [s |-> r.s, out |-> [ev |-> o.ev \o r.out.ev, logs |-> Sum(o.logs, r.out.logs)]]
Other(reg) == IF reg = "cmd" THEN "key" ELSE "cmd"

\* a change of reg, and what the follower makes of it
RECURSIVE To(_, _, _, _), Follow(_, _, _, _)
To(s, reg, xs, dup) ==
  IF xs = s[reg] THEN [s |-> s, out |-> [ev |-> <<>>, logs |-> Logs(reg, dup)]]
  ELSE Follow([s EXCEPT ![reg] = xs, !.touched = @ \cup {reg}], reg, s[reg], dup)
Follow(s, reg, old, dup) ==
  LET o == [ev |-> << [reg |-> reg, n |-> s[reg], o |-> old] >>, logs |-> Logs(reg, dup)] IN
  IF s.fol = "off" \/ Has(old, "i1") \/ ~Has(s[reg], "i1") THEN [s |-> s, out |-> o]
  ELSE LET to == IF s.fol = "same" THEN reg ELSE Other(reg)
           r == AddAll([xs |-> s[to], dup |-> 0], << [i |-> "i2", c |-> "c2"], [i |-> "i1", c |-> "c2"] >>)
       IN Join(o, To(s, to, r.xs, r.dup))

Do(s, e) ==
  CASE e.op = "add" -> LET r == AddAll([xs |-> s[e.reg], dup |-> 0], e.es) IN To(s, e.reg, r.xs, r.dup)
    [] e.op = "remove" -> To(s, e.reg, Without(s[e.reg], e.i), 0)
    [] e.op = "reset" ->
         LET xs == IF e.reg = "cmd" THEN s.cmd0 ELSE s.key0 IN
         IF e.reg \notin s.touched THEN [s |-> s, out |-> [ev |-> <<>>, logs |-> Logs(e.reg, 0)]]
         ELSE Follow([s EXCEPT ![e.reg] = xs, !.touched = @ \ {e.reg}], e.reg, s[e.reg], 0)

ObsOf(s) == [cmd |-> s.cmd, key |-> s.key]

--------------------------------------------------------------------------------
C(i, c) == [i |-> i, c |-> c]
SomeBatches ==
  { <<>> } \cup {<<C(i, c)>> : i \in Ids, c \in Cs}
  \cup { <<C("i1", "c1"), C("i2", "c1")>>, <<C("i2", "c2"), C("i1", "c1")>>, <<C("i1", "c1"), C("i1", "c2")>>,
         <<C("i3", "c2"), C("i1", "c2"), C("i3", "c1")>> }
Cfgs == { [cmd |-> <<>>, key |-> <<>>, fol |-> f] : f \in {"off", "same", "other"} }
        \cup { [cmd |-> <<C("i1", "c1")>>, key |-> <<C("i2", "c2")>>, fol |-> "off"] }
Inputs(s) ==
  [op : {"add"}, reg : Regs, es : Batches] \cup [op : {"remove"}, reg : Regs, i : Ids] \cup [op : {"reset"}, reg : Regs]
Init == \E c \in Cfgs :
  /\ st = InitSt(c)
  /\ act = [in |-> [op |-> "new", cfg |-> c], out |-> [ev |-> <<>>, logs |-> Logs("cmd", 0)]]
Next == \E e \in Inputs(st) : LET r == Do(st, e) IN st' = r.s /\ act' = [in |-> e, out |-> r.out]
View == st

--------------------------------------------------------------------------------
OnePerId == \A reg \in Regs : \A j, k \in DOMAIN st[reg] : st[reg][j].i = st[reg][k].i => j = k
Ev == act'.out.ev
\* C09: an entry that is there stays what it is
FirstWins ==
  [][act'.in.op = "add" =>
       SubSeq(st'[act'.in.reg], 1, Len(st[act'.in.reg])) = st[act'.in.reg]]_<<st, act>>
\* C09: nothing added, nobody told; duplicates are reported, at the right level
Of(reg) == SelectSeq(Ev, LAMBDA x : x.reg = reg)
Told ==
  [][\A reg \in Regs : LET xs == Of(reg) IN
       IF xs = <<>> THEN st'[reg] = st[reg]
       ELSE /\ xs[1].o = st[reg] /\ xs[Len(xs)].n = st'[reg]
            /\ \A k \in DOMAIN xs : xs[k].n # xs[k].o \/ act'.in.op = "reset"
            /\ \A k \in 1..(Len(xs) - 1) : xs[k].n = xs[k + 1].o]_<<st, act>>
\* one change per call, when nobody follows
OnceTold == [][st.fol = "off" => Len(Ev) <= 1]_<<st, act>>
\* a registry that got i1 leads to i2 in the one the follower contributes to
Followed ==
  [][\A reg \in Regs : (st.fol # "off" /\ ~Has(st[reg], "i1") /\ Has(st'[reg], "i1")) =>
       Has(st'[IF st.fol = "same" THEN reg ELSE Other(reg)], "i2")]_<<st, act>>
Reported ==
  [][(act'.in.op = "add" /\ st.fol = "off") =>
       act'.out.logs.error + act'.out.logs.warn = Len(act'.in.es) - (Len(st'[act'.in.reg]) - Len(st[act'.in.reg]))]_<<st, act>>
\* C09: the other registry is not touched
OtherStays == [][st.fol # "other" => \A reg \in Regs : reg # act'.in.reg => st'[reg] = st[reg]]_<<st, act>>

EmitInit == TLCGet("level") > 1 \/ PrintT("@I" \o ToJson([a |-> act, t |-> st, o |-> ObsOf(st)]))
EmitNext == PrintT("@T" \o ToJson([s |-> st, a |-> act', t |-> st', o |-> ObsOf(st')]))
================================================================================
