-------------------------------- MODULE JustLog --------------------------------
(* Logs of apps (@just-web/log). Every app has a name, a level and reporters; its  *)
(* loggers are known by their id: "N" of the app itself, "N:<id>" of getLogger and *)
(* getNonConsoleLogger, "N:p:<id>" and "N:p" of prefixed getters.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Apps, Cfgs, Keys, NcKeys, Methods, Levels, MaxCount, Ops

VARIABLES st, act

\* the levels, custom ones included
Num(m) ==
  CASE m = "none" -> 0 [] m = "critical" -> 300 [] m = "error" -> 400 [] m = "warn" -> 500 [] m = "notice" -> 600
    [] m = "custom" -> 650 [] m = "info" -> 700 [] m = "debug" -> 800 [] m = "trace" -> 900 [] m = "planck" -> 1000

\* a logger: "no" when it was never asked for, else the level it has ("app": that of the app)
InitSt(cfg) ==
  [cfg |-> cfg, up |-> [a \in Apps |-> FALSE],
   made |-> [a \in Apps |-> [k \in Keys |-> "no"]],
   nc |-> [a \in Apps |-> [k \in NcKeys |-> "no"]],
   count |-> [a \in Apps |-> [k \in Keys |-> 0]]]

Lvl(s, a, l) == IF l = "app" THEN Num(s.cfg[a]) ELSE Num(l)
Enabled(s, a, l, m) == Num(m) <= Lvl(s, a, l)
None == [a \in Apps |-> [mem |-> <<>>, con |-> <<>>]]
Entry(k, m, what) == [id |-> k, m |-> m, what |-> what]
\* to every reporter of the app
All(a, es) == [None EXCEPT ![a] = [mem |-> es, con |-> es]]
NotConsole(a, es) == [None EXCEPT ![a] = [mem |-> es, con |-> <<>>]]
Of(s, e) == IF e.nc THEN s.nc[e.a][e.k] ELSE s.made[e.a][e.k]

\* creating an app logs its created line
Create(s, a) ==
  [s |-> [s EXCEPT !.up[a] = TRUE, !.made[a]["N"] = "app"],
   out |-> IF Enabled(s, a, "app", "info") THEN All(a, <<Entry("N", "info", "created")>>) ELSE None]

Do(s, e) ==
  CASE e.op = "create" -> Create(s, e.a)
    [] e.op = "get" ->
         \* the first one who asks for a logger decides its level
         [s |-> IF Of(s, e) # "no" THEN s
                ELSE IF e.nc THEN [s EXCEPT !.nc[e.a][e.k] = e.l] ELSE [s EXCEPT !.made[e.a][e.k] = e.l],
          out |-> None]
    [] e.op = "level" ->
         [s |-> IF e.nc THEN [s EXCEPT !.nc[e.a][e.k] = e.l] ELSE [s EXCEPT !.made[e.a][e.k] = e.l], out |-> None]
    [] e.op \in {"log", "on"} ->
         [s |-> s,
          out |-> IF ~Enabled(s, e.a, Of(s, e), e.m) THEN None
                  ELSE LET es == IF e.op = "log" THEN <<Entry(e.k, e.m, "args")>>
                                 \* what the function logs, then what it returns
                                 ELSE <<Entry(e.k, e.m, "args"), Entry(e.k, e.m, "returned")>> IN
                       IF e.nc THEN NotConsole(e.a, es) ELSE All(e.a, es)]
    [] e.op = "count" ->
         IF ~Enabled(s, e.a, Of(s, e), "debug") THEN [s |-> s, out |-> None]
         ELSE LET n == s.count[e.a][e.k] + 1 IN
              [s |-> [s EXCEPT !.count[e.a][e.k] = n], out |-> All(e.a, <<Entry(e.k, "debug", "count" \o ToString(n))>>)]

\* the level the log of the app tells; each keeps its own
ObsOf(s) == [a \in Apps |-> IF s.up[a] THEN s.cfg[a] ELSE "no"]

--------------------------------------------------------------------------------
Have(s, a, k, nc) == s.up[a] /\ IF nc THEN s.nc[a][k] # "no" ELSE s.made[a][k] # "no"
Loggers == [a : Apps, k : Keys, nc : {FALSE}] \cup [a : Apps, k : NcKeys, nc : {TRUE}]
Inputs(s) ==
  {e \in
     [op : {"create"}, a : Apps]
     \cup {[op |-> "get", a |-> g.a, k |-> g.k, nc |-> g.nc, l |-> l] : g \in Loggers, l \in Levels \cup {"app"}}
     \cup {[op |-> "level", a |-> g.a, k |-> g.k, nc |-> g.nc, l |-> l] : g \in Loggers, l \in Levels \cup {"app"}}
     \cup {[op |-> o, a |-> g.a, k |-> g.k, nc |-> g.nc, m |-> m] : o \in {"log", "on"}, g \in Loggers, m \in Methods}
     \cup [op : {"count"}, a : Apps, k : Keys, nc : {FALSE}]
   : /\ e.op \in Ops
     /\ e.op = "create" <=> ~s.up[e.a]
     /\ e.op \in {"level", "log", "on", "count"} => Have(s, e.a, e.k, e.nc)
     /\ e.op = "level" => e.k # "N"
     \* a non-console logger of the id of another logger is refused by standard-log
     /\ e.op = "get" => ~(e.nc /\ e.k \in Keys /\ s.made[e.a][e.k] # "no")
     /\ e.op = "get" => e.k # "N" \/ e.l = "app"
     /\ e.op = "count" => s.count[e.a][e.k] < MaxCount}

Init == \E cfg \in Cfgs : st = InitSt(cfg) /\ act = [in |-> [op |-> "new", cfg |-> cfg], out |-> None]
Next == \E e \in Inputs(st) : LET r == Do(st, e) IN st' = r.s /\ act' = [in |-> e, out |-> r.out]
View == st

--------------------------------------------------------------------------------
\* C23: only the reporters of the app get the entry
Own == [][\A a \in Apps : a # act'.in.a => act'.out[a] = [mem |-> <<>>, con |-> <<>>]]_<<st, act>>
\* C23: an entry is there exactly when its level is enabled
Respect ==
  [][act'.in.op = "log" =>
       ((act'.out[act'.in.a].mem # <<>>) <=> Num(act'.in.m) <= Lvl(st, act'.in.a, Of(st, act'.in)))]_<<st, act>>
\* C23: loggers of one app do not depend on those of another
Apart == [][\A a \in Apps : a # act'.in.a => st'.made[a] = st.made[a] /\ st'.nc[a] = st.nc[a]]_<<st, act>>

MC_Cfgs1 == {[A |-> l, B |-> "info"] : l \in {"info", "debug", "planck", "error", "none", "custom"}}
MC_Cfgs2 == {[A |-> "info", B |-> "info"], [A |-> "planck", B |-> "error"]}
MC_Cfgs3 == {[A |-> x, B |-> y] : x \in {"none", "error", "custom", "info", "planck"}, y \in {"error", "debug"}}

EmitInit == TLCGet("level") > 1 \/ PrintT("@I" \o ToJson([a |-> act, t |-> st, o |-> ObsOf(st)]))
EmitNext == PrintT("@T" \o ToJson([s |-> st, a |-> act', t |-> st', o |-> ObsOf(st')]))
================================================================================
