------------------------------ MODULE JustPrefs ------------------------------
(* User preferences (@just-web/preferences and @just-web/browser-preferences).  *)
(* Several app instances are used through their own preferences; in memory each *)
(* instance has its own preferences, in the browser the instances of one name   *)
(* share what localStorage holds for that name, together with entries of other  *)
(* code ("foreign").  A write can be made to fail, and the page can be reloaded *)
(* at any moment, which keeps localStorage and loses what was still pending.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Backends, Insts, Keys, Vals, P, Plans, Foreign, Ops

VARIABLES st, act

None == [k |-> "none"]
Absent == "-"
Browser(s) == s.backend # "mem"
\* which preferences an instance uses: C is another instance of the app A
Of(s, i) == IF Browser(s) /\ i = "C" THEN "A" ELSE i
Names(s) == {Of(s, i) : i \in Insts}
Pending(s) == {p \in P : s.pend[p].k # "none"}

Ret(r) == [seen |-> "-", ret |-> r]
Saw(v, r) == [seen |-> v, ret |-> r]

\* store v (Absent removes) as the preference k of name n
Put(s, n, k, v) == [s EXCEPT !.val[n][k] = v]
\* does storing v fail now?  only writing text can
Fails(s, v) == s.fault /\ v # Absent
Result(plan, c) == CASE plan = "ret" -> c [] OTHER -> Absent

InitSt(cfg) ==
  [backend |-> cfg.backend,
   val |-> [n \in Insts |-> [k \in Keys |-> Absent]],
   pend |-> [p \in P |-> None],
   fault |-> FALSE,
   foreign |-> [f \in Foreign |-> FALSE]]

Write(s, n, k, v, seen, failed) ==
  IF Fails(s, v) THEN [s |-> s, out |-> Saw(seen, failed)]
  ELSE [s |-> Put(s, n, k, v), out |-> Saw(seen, "-")]

Do(s, e) ==
  LET n == Of(s, e.i) IN
  CASE e.op = "set"     -> Write(s, n, e.k, e.v, "-", "quota")
    [] e.op = "nothing" -> Write(s, n, e.k, Absent, "-", "quota")
    [] e.op = "upd"     ->
         IF e.plan = "throw" THEN [s |-> s, out |-> Saw(s.val[n][e.k], "boom")]
         ELSE Write(s, n, e.k, Result(e.plan, e.v), s.val[n][e.k], "quota")
    [] e.op = "begin"   ->
         [s |-> [s EXCEPT !.pend[e.p] = [k |-> e.plan, v |-> e.v, n |-> n, key |-> e.k]],
          out |-> Saw(s.val[n][e.k], "promise")]
    [] e.op = "settle"  ->
         LET q == s.pend[e.p]
             s1 == [s EXCEPT !.pend[e.p] = None]
             v == Result(q.k, q.v)
         IN IF q.k = "throw" THEN [s |-> s1, out |-> Ret("boom")]
            ELSE IF Fails(s, v) THEN [s |-> s1, out |-> Ret("quota")]
            ELSE [s |-> Put(s1, q.n, q.key, v), out |-> Ret("done")]
    [] e.op = "clear"   -> [s |-> [s EXCEPT !.val[n] = [k \in Keys |-> Absent]], out |-> Ret("-")]
    [] e.op = "fault"   -> [s |-> [s EXCEPT !.fault = e.on], out |-> Ret("-")]
    [] e.op = "other"   -> [s |-> [s EXCEPT !.foreign[e.f] = ~@], out |-> Ret("-")]
    [] e.op = "reload"  -> [s |-> [s EXCEPT !.pend = [p \in P |-> None]], out |-> Ret("-")]

\* what an instance reads: without a default and with the default "D"
Read(s, i) ==
  [k \in Keys |-> LET v == s.val[Of(s, i)][k] IN
     [bare |-> v, dflt |-> IF v = Absent THEN "D" ELSE v]]
Present(s) == {<<n, k>> \in Names(s) \X Keys : s.val[n][k] # Absent}
ObsOf(s) ==
  [get |-> [i \in Insts |-> Read(s, i)],
   early |-> <<>>,
   \* the content of localStorage
   entries |-> IF Browser(s) THEN Cardinality(Present(s)) ELSE 0,
   plain |-> 0,
   foreign |-> s.foreign]

--------------------------------------------------------------------------------
Inputs(s) ==
  {e \in
     [op : {"set"}, i : Insts, k : Keys, v : Vals \cup {Absent}]
     \cup [op : {"nothing"}, i : Insts, k : Keys]
     \cup [op : {"upd"}, i : Insts, k : Keys, plan : Plans, v : Vals]
     \cup {[op |-> "begin", i |-> i, k |-> k, plan |-> pl, v |-> v, p |-> p] :
             i \in Insts, k \in Keys, pl \in Plans, v \in Vals, p \in P \ Pending(s)}
     \cup {[op |-> "settle", i |-> "A", p |-> p] : p \in Pending(s)}
     \cup [op : {"clear"}, i : Insts]
     \cup {[op |-> "fault", i |-> "A", on |-> ~s.fault]}
     \cup [op : {"other"}, i : {"A"}, f : Foreign]
     \cup [op : {"reload"}, i : {"A"}]
   : /\ e.op \in Ops
     /\ e.op \in {"upd", "begin"} => (e.plan = "ret" \/ e.v = "v1")
     /\ e.op \in {"fault", "other", "reload"} => Browser(s)}

Init == \E b \in Backends :
  /\ st = InitSt([backend |-> b])
  /\ act = [in |-> [op |-> "new", cfg |-> [backend |-> b]], out |-> Ret("-")]
Next == \E e \in Inputs(st) : LET r == Do(st, e) IN st' = r.s /\ act' = [in |-> e, out |-> r.out]
View == st

--------------------------------------------------------------------------------
TypeOK ==
  /\ \A n \in Insts : \A k \in Keys : st.val[n][k] \in Vals \cup {Absent}
  /\ ~Browser(st) => ~st.fault /\ \A f \in Foreign : ~st.foreign[f]
\* C13: a read of an absent preference gives the default, of a present one never does
Defaults == \A i \in Insts : \A k \in Keys :
  LET r == ObsOf(st).get[i][k] IN r.dflt = IF r.bare = Absent THEN "D" ELSE r.bare
\* C13/C15/C16: an operation changes only preferences of the app it was called on
Target(e) == IF e.op = "settle" THEN st.pend[e.p].n ELSE Of(st, e.i)
OwnOnly ==
  [][\A n \in Insts : st'.val[n] # st.val[n] =>
        /\ act'.in.op \in {"set", "nothing", "upd", "settle", "clear"}
        /\ n = Target(act'.in)]_<<st, act>>
\* C13: every operation but clear changes at most the key it names
OneKey ==
  [][act'.in.op # "clear" =>
       \A n \in Insts : \A k, l \in Keys :
         (st'.val[n][k] # st.val[n][k] /\ st'.val[n][l] # st.val[n][l]) => k = l]_<<st, act>>
\* C13: an error leaves everything as it was
ErrorKeeps == [][act'.out.ret \in {"boom", "quota"} => st'.val = st.val]_<<st, act>>
\* C13: an asynchronous update takes effect when it settles, not before
BeginQuiet == [][act'.in.op = "begin" => st'.val = st.val]_<<st, act>>
\* C15: a reload keeps every preference, and so do writes of others
Durable == [][act'.in.op \in {"reload", "other", "fault"} => st'.val = st.val]_<<st, act>>
\* C15: what others wrote stays
ForeignStays == [][act'.in.op # "other" => st'.foreign = st.foreign]_<<st, act>>

EmitInit == TLCGet("level") > 1 \/ PrintT("@I" \o ToJson([a |-> act, t |-> st, o |-> ObsOf(st)]))
EmitNext == PrintT("@T" \o ToJson([s |-> st, a |-> act', t |-> st', o |-> ObsOf(st')]))
================================================================================
