------------------------------ MODULE JustTracking ------------------------------
(* Executions of commands are tracked (@just-web/commands): whichever way a        *)
(* command is invoked - through the handlers of an app, by its function, by a key  *)
(* - the app that runs it logs it once, before its handler runs. Handlers may      *)
(* invoke other commands, and fail.                                                *)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS
  Apps,     \* "A" has the browser keyboard
  Ids,      \* commands: i1, i2..
  Levels,   \* log levels of the apps
  Funs,     \* handlers: "plain", "throw", "nest" (of i1: invokes i2)
  Ops

VARIABLES st, act

Num(l) == CASE l = "error" -> 400 [] l = "notice" -> 600 [] l = "info" -> 700 [] l = "trace" -> 900

InitSt(cfg) == [cfg |-> cfg, reg |-> [a \in Apps |-> [i \in Ids |-> "no"]], conn |-> [i \in Ids |-> "no"]]

Ev(a, k, i) == [a |-> a, k |-> k, i |-> i]
\* what app a logs about i
Logged(s, a, l, k, i) == IF Num(l) <= Num(s.cfg[a]) THEN <<Ev(a, k, i)>> ELSE <<>>

\* the events of an invocation, and whether it threw
RECURSIVE Invoke(_, _, _)
Invoke(s, a, i) ==
  LET f == s.reg[a][i]
      traced == Logged(s, a, "trace", "invoke", i) IN
  CASE f = "no" -> [ev |-> traced \o Logged(s, a, "error", "unknown", i), ret |-> "returned"]
    [] f = "plain" -> [ev |-> traced \o <<Ev(a, "call", i)>>, ret |-> "returned"]
    [] f = "throw" -> [ev |-> traced \o <<Ev(a, "call", i)>>, ret |-> "threw"]
    [] f = "nest" -> LET n == Invoke(s, a, "i2") IN [ev |-> traced \o <<Ev(a, "call", i)>> \o n.ev, ret |-> n.ret]

Register(s, a, i, f) ==
  [s |-> [s EXCEPT !.reg[a][i] = f],
   ev |-> Logged(s, a, "trace", "register", i) \o (IF s.reg[a][i] = "no" THEN <<>> ELSE Logged(s, a, "notice", "replaced", i))]

Do(s, e) ==
  CASE e.op = "register" -> LET r == Register(s, e.a, e.i, e.f) IN [s |-> r.s, out |-> [ev |-> r.ev, ret |-> "-"]]
    [] e.op = "connect" ->
         LET r == Register(s, e.a, e.i, e.f) IN [s |-> [r.s EXCEPT !.conn[e.i] = e.a], out |-> [ev |-> r.ev, ret |-> "-"]]
    [] e.op = "invoke" -> [s |-> s, out |-> Invoke(s, e.a, e.i)]
    [] e.op = "call" ->
         [s |-> s, out |-> IF s.conn[e.i] = "no" THEN [ev |-> <<>>, ret |-> "returned"] ELSE Invoke(s, s.conn[e.i], e.i)]
    [] e.op = "press" -> [s |-> s, out |-> [ev |-> Invoke(s, "A", e.i).ev, ret |-> "-"]]

ObsOf(s) == [a \in Apps |-> [i \in Ids |-> s.reg[a][i] # "no"]]

--------------------------------------------------------------------------------
Inputs(s) ==
  {e \in
     [op : {"register", "connect"}, a : Apps, i : Ids, f : Funs]
     \cup [op : {"invoke"}, a : Apps, i : Ids]
     \cup [op : {"call", "press"}, i : Ids]
   : e.op \in Ops /\ (e.op \in {"register", "connect"} /\ e.f = "nest" => e.i = "i1")}

Init == \E cfg \in [Apps -> Levels] :
  st = InitSt(cfg) /\ act = [in |-> [op |-> "new", cfg |-> cfg], out |-> [ev |-> <<>>, ret |-> "-"]]
Next == \E e \in Inputs(st) : LET r == Do(st, e) IN st' = r.s /\ act' = [in |-> e, out |-> r.out]
View == st

--------------------------------------------------------------------------------
E == act'.out.ev
Run(a, i) == {k \in DOMAIN E : E[k] = Ev(a, "call", i)}
Tracked(a, i) == {k \in DOMAIN E : E[k] = Ev(a, "invoke", i)}
\* C29: at trace level every run is preceded by its own entry, directly
RunsTracked ==
  [][\A a \in Apps, i \in Ids : Num(st.cfg[a]) >= 900 =>
       \A k \in Run(a, i) : k > 1 /\ E[k - 1] = Ev(a, "invoke", i)]_<<st, act>>
\* C29: an entry is followed by the run, or by the error that there is no handler
TrackedRuns ==
  [][\A a \in Apps, i \in Ids : \A k \in Tracked(a, i) :
       k < Len(E) /\ E[k + 1] \in {Ev(a, "call", i), Ev(a, "unknown", i)}]_<<st, act>>
\* C29: only the app that runs it logs it
OneApp == [][\A j, k \in DOMAIN E : E[j].a = E[k].a]_<<st, act>>
\* C29: tracking invokes nothing by itself
Quiet == [][act'.in.op \in {"register", "connect"} => \A k \in DOMAIN E : E[k].k # "call"]_<<st, act>>

EmitInit == TLCGet("level") > 1 \/ PrintT("@I" \o ToJson([a |-> act, t |-> st, o |-> ObsOf(st)]))
EmitNext == PrintT("@T" \o ToJson([s |-> st, a |-> act', t |-> st', o |-> ObsOf(st')]))
================================================================================
