---------------------------- MODULE JustPrefStore ----------------------------
(* Stores created on preferences (@just-web/preferences createStore): typed     *)
(* views of a preference.  s1 and s2 are views of one key, without and with a   *)
(* default; s3 is a view of another key.  "D" is the content of the default.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Backends, Defaults, Stores, Vals, P, Plans, Ops

VARIABLES st, act

Absent == "-"
None == [k |-> "none"]
Keys == {"k1", "k2"}
KeyOf(x) == IF x = "s3" THEN "k2" ELSE "k1"
HasDefault(x) == x # "s1"
Pending(s) == {p \in P : s.pend[p].k # "none"}
Mutable(s, v) == v \in {"a", "b"} \/ (v = "D" /\ s.dflt = "obj")

\* what a view shows
See(s, x) == LET v == s.val[KeyOf(x)] IN IF v = Absent /\ HasDefault(x) THEN "D" ELSE v
\* what an updater leaves, given what it was given
Result(plan, c, orig) ==
  CASE plan \in {"ret", "inRet"} -> c
    [] plan = "nothing" -> Absent
    [] plan = "void"    -> orig
    [] plan = "in"      -> "b"

InitSt(cfg) ==
  [backend |-> cfg.backend, dflt |-> cfg.dflt,
   val |-> [k \in Keys |-> Absent], pend |-> [p \in P |-> None]]

Out(seen, ret) == [seen |-> seen, ret |-> ret]
Do(s, e) ==
  CASE e.op = "set"     -> [s |-> [s EXCEPT !.val[KeyOf(e.x)] = e.v], out |-> Out("-", "-")]
    [] e.op = "upd"     ->
         LET o == See(s, e.x) IN
         IF e.plan \in {"throw", "inThrow"} THEN [s |-> s, out |-> Out(o, "boom")]
         ELSE [s |-> [s EXCEPT !.val[KeyOf(e.x)] = Result(e.plan, e.v, o)], out |-> Out(o, "-")]
    [] e.op = "begin"   ->
         [s |-> [s EXCEPT !.pend[e.p] = [k |-> e.plan, v |-> e.v, x |-> e.x, o |-> See(s, e.x)]],
          out |-> Out(See(s, e.x), "promise")]
    [] e.op = "settle"  ->
         LET q == s.pend[e.p]
             s1 == [s EXCEPT !.pend[e.p] = None]
         IN IF q.k \in {"throw", "inThrow"} THEN [s |-> s1, out |-> Out("-", "boom")]
            ELSE [s |-> [s1 EXCEPT !.val[KeyOf(q.x)] = Result(q.k, q.v, q.o)], out |-> Out("-", "done")]
    [] e.op = "raw"     -> [s |-> [s EXCEPT !.val[e.k] = e.v], out |-> Out("-", "-")]
    [] e.op = "clear"   -> [s |-> [s EXCEPT !.val = [k \in Keys |-> Absent]], out |-> Out("-", "-")]
    \* the caller changes the object it got
    [] e.op = "scribble" -> [s |-> s, out |-> Out(See(s, e.x), "-")]

ObsOf(s) ==
  [get |-> [x \in Stores |-> See(s, x)], raw |-> [k \in Keys |-> s.val[k]], defaults |-> "intact", early |-> <<>>]

--------------------------------------------------------------------------------
Inputs(s) ==
  {e \in
     [op : {"set"}, x : Stores, v : Vals \cup {Absent}]
     \cup [op : {"upd"}, x : Stores, plan : Plans, v : Vals]
     \cup {[op |-> "begin", x |-> x, plan |-> pl, v |-> v, p |-> p] :
             x \in Stores, pl \in Plans, v \in Vals, p \in P \ Pending(s)}
     \cup {[op |-> "settle", p |-> p] : p \in Pending(s)}
     \cup [op : {"raw"}, k : Keys, v : Vals \cup {Absent}]
     \cup {[op |-> "clear"]}
     \cup [op : {"scribble"}, x : Stores]
   : /\ e.op \in Ops
     /\ e.op \in {"upd", "begin"} => (e.plan = "ret" \/ (e.v = "a"))
     /\ (e.op \in {"upd", "begin"} /\ e.plan \in {"in", "inRet", "inThrow"}) => Mutable(s, See(s, e.x))
     /\ e.op = "scribble" => (s.val[KeyOf(e.x)] # Absent /\ Mutable(s, s.val[KeyOf(e.x)]))}

Init == \E b \in Backends, d \in Defaults :
  /\ st = InitSt([backend |-> b, dflt |-> d])
  /\ act = [in |-> [op |-> "new", cfg |-> [backend |-> b, dflt |-> d]], out |-> Out("-", "-")]
Next == \E e \in Inputs(st) : LET r == Do(st, e) IN st' = r.s /\ act' = [in |-> e, out |-> r.out]
View == st

--------------------------------------------------------------------------------
TypeOK == \A k \in Keys : st.val[k] \in Vals \cup {Absent, "D", "b"}
\* C14: every store of a key shows what was stored, the default only when nothing is
Shared == \A x, y \in Stores :
  (KeyOf(x) = KeyOf(y) /\ st.val[KeyOf(x)] # Absent) => See(st, x) = See(st, y)
\* C14: only the store's own key changes
OwnKey ==
  [][\A k \in Keys : st'.val[k] # st.val[k] =>
       CASE act'.in.op \in {"set", "upd"} -> k = KeyOf(act'.in.x)
         [] act'.in.op = "settle" -> k = KeyOf(st.pend[act'.in.p].x)
         [] act'.in.op = "raw" -> k = act'.in.k
         [] act'.in.op = "clear" -> TRUE
         [] OTHER -> FALSE]_<<st, act>>
\* C14: a failing updater, or beginning one, changes nothing
FailKeeps == [][act'.out.ret \in {"boom", "promise"} => st'.val = st.val]_<<st, act>>
\* C14: an updater is given what the store shows
GivenShown == [][act'.in.op \in {"upd", "begin"} => act'.out.seen = See(st, act'.in.x)]_<<st, act>>

EmitInit == TLCGet("level") > 1 \/ PrintT("@I" \o ToJson([a |-> act, t |-> st, o |-> ObsOf(st)]))
EmitNext == PrintT("@T" \o ToJson([s |-> st, a |-> act', t |-> st', o |-> ObsOf(st')]))
================================================================================
