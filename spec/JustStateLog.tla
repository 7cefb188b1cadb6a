------------------------------ MODULE JustStateLog ------------------------------
(* What states, stores and registries of app.states (@just-web/states) log, and    *)
(* where: every change once, to the logger of the state: the one given when it was *)
(* created, else the log of its app.                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Apps,     \* apps on the page
  Cells,    \* states
  Loggers,  \* whose log: "own" the app's, "sub" a logger of it, "loud" one with every level, "other" the log of another app,
            \* "page" none was given to a state made without an app: the log of the page
  Levels,   \* levels an app may have
  Vals,     \* values written
  H,        \* subscribers
  Behs,     \* what a subscriber does: "plain", "setA" (writes "a" again)
  Ops

VARIABLES st, act

\* a: the initial value of every state
Num(l) == CASE l = "info" -> 700 [] l = "trace" -> 900 [] l = "planck" -> 1000 [] OTHER -> 0
Other(a) == CHOOSE b \in Apps : b # a \/ Apps = {a}
Page == "page"
None == [a \in Apps \cup {Page} |-> <<>>]

InitSt(cfg) == [cfg |-> cfg, cell |-> [c \in Cells |-> [a |-> "no", lg |-> "own", v |-> "a", subs |-> <<>>]]]

\* the app whose reporters get it, its id, and the level that counts
Where(s, c) == CASE s.cell[c].lg = "other" -> Other(s.cell[c].a) [] s.cell[c].lg = "page" -> Page [] OTHER -> s.cell[c].a
Id(s, c) == CASE s.cell[c].lg = "sub" -> "N:sub" [] s.cell[c].lg = "loud" -> "N:loud" [] s.cell[c].lg = "page" -> "states" [] OTHER -> "N"
Lvl(s, c) == IF s.cell[c].lg \in {"loud", "page"} THEN 1000 ELSE Num(s.cfg[Where(s, c)])

Entry(s, c, m, o, n) == [id |-> Id(s, c), m |-> m, o |-> o, n |-> n]
Logged(s, c, m, o, n) == IF Num(m) <= Lvl(s, c) THEN <<Entry(s, c, m, o, n)>> ELSE <<>>

\* the changes write v makes: its own, then those of the subscribers, in order
RECURSIVE Write(_, _, _, _)
RECURSIVE Tell(_, _, _)
Tell(s, c, k) ==
  IF k > Len(s.cell[c].subs) THEN [s |-> s, es |-> <<>>]
  ELSE LET r == IF s.cell[c].subs[k].b = "setA" THEN Write(s, c, "a", 0) ELSE [s |-> s, es |-> <<>>]
           n == Tell(r.s, c, k + 1)
       IN [s |-> n.s, es |-> r.es \o n.es]
Write(s, c, v, x) ==
  IF s.cell[c].v = v THEN [s |-> s, es |-> <<>>]
  ELSE LET t == Tell([s EXCEPT !.cell[c].v = v], c, 1)
       IN [s |-> t.s, es |-> Logged(s, c, "planck", s.cell[c].v, v) \o t.es]

Has(s, c, h) == \E k \in DOMAIN s.cell[c].subs : s.cell[c].subs[k].h = h
Wrote(s, c, v) == LET r == Write(s, c, v, 0) IN [s |-> r.s, out |-> [None EXCEPT ![Where(s, c)] = r.es]]
\* set(() => { set(w); return v })
Nested(s, c, w, v) ==
  LET i == Write(s, c, w, 0) r == Write(i.s, c, v, 0) IN
  [s |-> r.s, out |-> [None EXCEPT ![Where(s, c)] = i.es \o r.es]]
Quiet(s) == [s |-> s, out |-> None]

Do(s, e) ==
  CASE e.op = "create" -> Quiet([s EXCEPT !.cell[e.c] = [a |-> e.a, lg |-> e.lg, v |-> "a", subs |-> <<>>]])
    [] e.op \in {"set", "ret", "in", "settle"} -> Wrote(s, e.c, e.v)   \* set(v), set(() => v), set(draft => ...), set(async () => v)
    [] e.op = "nest" -> Nested(s, e.c, e.w, e.v)
    [] e.op \in {"void", "throw"} -> Quiet(s)
    [] e.op = "reset" -> Wrote(s, e.c, "a")
    [] e.op = "sub" ->
         LET t == [s EXCEPT !.cell[e.c].subs = Append(@, [h |-> e.h, b |-> e.b])] IN
         [s |-> t, out |-> [None EXCEPT ![Where(s, e.c)] = Logged(s, e.c, "trace", "-", "-")]]
    [] e.op = "dup" -> Quiet(s)
    [] e.op = "off" -> Quiet([s EXCEPT !.cell[e.c].subs = SelectSeq(@, LAMBDA x : x.h # e.h)])

ObsOf(s) == [c \in Cells |-> IF s.cell[c].a = "no" THEN "no" ELSE s.cell[c].v]

--------------------------------------------------------------------------------
Up(s, c) == s.cell[c].a # "no"
Inputs(s) ==
  {e \in
     [op : {"create"}, c : Cells, a : Apps, lg : Loggers]
     \cup [op : {"set", "ret", "in", "settle"}, c : Cells, v : Vals]
     \cup [op : {"nest"}, c : Cells, w : Vals, v : Vals]
     \cup [op : {"void", "throw", "reset"}, c : Cells]
     \cup [op : {"sub"}, c : Cells, h : H, b : Behs]
     \cup [op : {"dup", "off"}, c : Cells, h : H]
   : /\ e.op \in Ops
     /\ e.op = "create" <=> ~Up(s, e.c)
     /\ e.op = "sub" => ~Has(s, e.c, e.h)
     /\ e.op = "sub" /\ e.b = "setA" => ~\E k \in DOMAIN s.cell[e.c].subs : s.cell[e.c].subs[k].b = "setA"
     \* the initial value is an object of its own, not one changed in place
     /\ e.op = "in" => e.v # "a"
     /\ e.op \in {"dup", "off"} => Has(s, e.c, e.h)}

Init == \E l \in [Apps -> Levels] :
  LET cfg == l IN st = InitSt(cfg) /\ act = [in |-> [op |-> "new", cfg |-> cfg], out |-> None]
Next == \E e \in Inputs(st) : LET r == Do(st, e) IN st' = r.s /\ act' = [in |-> e, out |-> r.out]
View == st

--------------------------------------------------------------------------------
Changes(es) == SelectSeq(es, LAMBDA x : x.m = "planck")
\* C26: what is logged goes to the logger of the state only
OwnLog ==
  [][act'.in.op # "new" => \A a \in Apps \cup {Page} : act'.out[a] # <<>> =>
       /\ a = Where(st', act'.in.c)
       /\ \A k \in DOMAIN act'.out[a] : act'.out[a][k].id = Id(st', act'.in.c)]_<<st, act>>
\* C26: the changes that are logged lead from the value before to the value after, when changes are logged at all
Chain ==
  [][\A a \in Apps \cup {Page} : (act'.in.op # "create" /\ a = Where(st, act'.in.c) /\ Lvl(st, act'.in.c) >= 1000) =>
       LET es == Changes(act'.out[a]) IN
       /\ st'.cell[act'.in.c].v # st.cell[act'.in.c].v => es # <<>>
       /\ es # <<>> => es[1].o = st.cell[act'.in.c].v /\ es[Len(es)].n = st'.cell[act'.in.c].v
       /\ \A k \in 1..(Len(es) - 1) : es[k].n = es[k + 1].o]_<<st, act>>
\* C26: nothing is logged below its level, nor when nothing changes
Silent ==
  [][\A a \in Apps \cup {Page} : \A k \in DOMAIN act'.out[a] :
       /\ Num(act'.out[a][k].m) <= Lvl(st', act'.in.c)
       /\ act'.out[a][k].m = "planck" => act'.out[a][k].o # act'.out[a][k].n]_<<st, act>>
\* C26: one state does not change another
CellsApart == [][\A c \in Cells : c # act'.in.c => st'.cell[c] = st.cell[c]]_<<st, act>>

EmitInit == TLCGet("level") > 1 \/ PrintT("@I" \o ToJson([a |-> act, t |-> st, o |-> ObsOf(st)]))
EmitNext == PrintT("@T" \o ToJson([s |-> st, a |-> act', t |-> st', o |-> ObsOf(st')]))
================================================================================
