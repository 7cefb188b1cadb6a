-------------------------------- MODULE JustPage --------------------------------
(* Several just-web apps on one page, each with its own preferences, language,      *)
(* commands, key bindings, routes, events, command palette and log, built from the  *)
(* same plugins.                                                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Apps, Keys, Vals, Langs, Cmds, Routes, Ops

VARIABLES st, act

None == "none"
NewApp ==
  [up |-> FALSE, making |-> FALSE, prefs |-> [k \in Keys |-> None], lang |-> "init",
   handlers |-> [c \in Cmds |-> FALSE], contribs |-> [c \in Cmds |-> FALSE], keybs |-> [c \in Cmds |-> FALSE],
   routes |-> [r \in Routes |-> FALSE], palette |-> FALSE]
InitSt(cfg) == [a \in Apps |-> NewApp]

\* ran: what ran, and of which app; foreign: entries in the logs of other apps
Out(ran) == [ran |-> ran, foreign |-> 0, own |-> TRUE]
Quiet == Out(<<>>)
One(a, what) == <<[a |-> a, what |-> what]>>

Do(s, e) ==
  LET a == e.a
      x == s[a]
  IN
  CASE e.op = "create" -> [s |-> [s EXCEPT ![a].up = TRUE], out |-> Quiet]
    \* all that are not there yet, at the same time, step by step
    [] e.op = "all" -> [s |-> [b \in Apps |-> IF s[b].up \/ s[b].making THEN s[b] ELSE [s[b] EXCEPT !.up = TRUE]], out |-> Quiet]
    \* an app that takes its time to be created, while others are used or created
    [] e.op = "begin" -> [s |-> [s EXCEPT ![a].making = TRUE], out |-> Quiet]
    [] e.op = "finish" -> [s |-> [s EXCEPT ![a].making = FALSE, ![a].up = TRUE], out |-> Quiet]
    \* all that are being created go on at the same time
    [] e.op = "together" -> [s |-> [b \in Apps |-> IF s[b].making THEN [s[b] EXCEPT !.making = FALSE, !.up = TRUE] ELSE s[b]], out |-> Quiet]
    [] e.op = "pref" -> [s |-> [s EXCEPT ![a].prefs[e.k] = e.v], out |-> Quiet]
    [] e.op = "clear" -> [s |-> [s EXCEPT ![a].prefs = [k \in Keys |-> None]], out |-> Quiet]
    [] e.op = "lang" -> [s |-> [s EXCEPT ![a].lang = e.l], out |-> Out(One(a, "lang"))]
    [] e.op = "unlang" -> [s |-> [s EXCEPT ![a].lang = "init"], out |-> Out(One(a, "lang"))]
    [] e.op = "handler" -> [s |-> [s EXCEPT ![a].handlers[e.c] = TRUE], out |-> Quiet]
    \* one command object for every app, with a handler of this app
    [] e.op = "connect" ->
         [s |-> [s EXCEPT ![a].handlers[e.c] = TRUE, ![a].contribs[e.c] = TRUE, ![a].keybs[e.c] = TRUE], out |-> Quiet]
    [] e.op = "contrib" -> [s |-> [s EXCEPT ![a].contribs[e.c] = TRUE], out |-> Quiet]
    [] e.op = "keyb" -> [s |-> [s EXCEPT ![a].keybs[e.c] = TRUE], out |-> Quiet]
    [] e.op = "run" -> [s |-> s, out |-> Out(IF x.handlers[e.c] THEN One(a, e.c) ELSE <<>>)]
    [] e.op = "palette" -> [s |-> [s EXCEPT ![a].palette = TRUE], out |-> Quiet]
    [] e.op = "show" -> [s |-> s, out |-> Out(IF x.palette THEN One(a, "palette") ELSE <<>>)]
    [] e.op = "route" -> [s |-> [s EXCEPT ![a].routes[e.r] = TRUE], out |-> Quiet]
    [] e.op = "unroute" -> [s |-> [s EXCEPT ![a].routes[e.r] = FALSE], out |-> Quiet]
    [] e.op = "unroutes" -> [s |-> [s EXCEPT ![a].routes = [r \in Routes |-> FALSE]], out |-> Quiet]
    [] e.op = "go" -> [s |-> s, out |-> Out(IF x.routes[e.r] THEN One(a, e.r) ELSE <<>>)]
    \* a listener that throws is logged by its app
    [] e.op \in {"emit", "emitThrow"} -> [s |-> s, out |-> Out(One(a, "event"))]
    [] e.op = "log" -> [s |-> s, out |-> Quiet]

ObsOf(s) == s

--------------------------------------------------------------------------------
Inputs(s) ==
  LET Up == {a \in Apps : s[a].up}
      Making == {a \in Apps : s[a].making} IN
  {e \in
     {[op |-> o, a |-> a] : a \in Apps \ (Up \cup Making), o \in {"create", "begin"}}
     \cup (IF Cardinality(Apps \ (Up \cup Making)) > 1 THEN {[op |-> "all", a |-> a] : a \in Apps \ (Up \cup Making)} ELSE {})
     \cup {[op |-> "finish", a |-> a] : a \in Making}
     \cup (IF Cardinality(Making) > 1 THEN {[op |-> "together", a |-> a] : a \in Making} ELSE {})
     \cup {[op |-> "pref", a |-> a, k |-> k, v |-> v] : a \in Up, k \in Keys, v \in Vals \cup {None}}
     \cup {[op |-> "lang", a |-> a, l |-> l] : a \in Up, l \in Langs}
     \cup {[op |-> o, a |-> a, c |-> c] : a \in Up, c \in Cmds, o \in {"handler", "connect", "contrib", "keyb", "run"}}
     \cup {[op |-> "palette", a |-> a] : a \in {x \in Up : ~s[x].palette}}
     \cup {[op |-> o, a |-> a, r |-> r] : a \in Up, r \in Routes, o \in {"route", "unroute", "go"}}
     \cup {[op |-> o, a |-> a] : a \in Up, o \in {"show", "clear", "unlang", "unroutes", "emit", "emitThrow", "log"}}
   : e.op \in Ops}

Init ==
  /\ st = InitSt([n |-> 0])
  /\ act = [in |-> [op |-> "new", cfg |-> [n |-> 0]], out |-> Quiet]
Next == \E e \in Inputs(st) : LET r == Do(st, e) IN st' = r.s /\ act' = [in |-> e, out |-> r.out]
View == st

--------------------------------------------------------------------------------
\* C16: an operation of one app changes that app only
OwnApp == [][\A a \in Apps : (a # act'.in.a /\ ~(act'.in.op \in {"together", "all"} /\ ~st[a].up)) => st'[a] = st[a]]_<<st, act>>
\* C16: what runs belongs to the app that was used
OwnHandlers == [][\A i \in DOMAIN act'.out.ran : act'.out.ran[i].a = act'.in.a]_<<st, act>>
\* C16: what happened before another app was created is kept
Created == [][act'.in.op \in {"create", "all", "begin", "finish", "together"} => \A a \in Apps : st[a].up => st'[a] = st[a]]_<<st, act>>
\* C16: an app begins with nothing of what was done while it was created
Fresh == [][\A a \in Apps : (~st[a].up /\ st'[a].up) => st'[a] = [NewApp EXCEPT !.up = TRUE]]_<<st, act>>

EmitInit == TLCGet("level") > 1 \/ PrintT("@I" \o ToJson([a |-> act, t |-> st, o |-> ObsOf(st)]))
EmitNext == PrintT("@T" \o ToJson([s |-> st, a |-> act', t |-> st', o |-> ObsOf(st')]))
================================================================================
