------------------------------ MODULE JustRoutes ------------------------------
(* The routes of apps (@just-web/routes): who is registered for what, and who   *)
(* may take it away.  A registration slot t stands for one caller of            *)
(* register() together with every unregister function it has been given.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Apps, Routes, Slots, Behs, Ops

VARIABLES st, act

None == "none"
Free(s, a, t) == \A r \in Routes : s[a].at[r] # t
RouteOf(s, a, t) == CHOOSE r \in Routes : s[a].at[r] = t
NextR(r) == CASE r = "root" -> "r1" [] r = "r1" -> "r2" [] OTHER -> "root"

Fresh == [at |-> [r \in Routes |-> None], b |-> [t \in Slots |-> "plain"], stale |-> {}, init |-> "root"]
InitSt(cfg) == [a \in Apps |-> Fresh]

Out(calls, ret, errors) == [calls |-> calls, ret |-> ret, errors |-> errors]
Drop(s, a, t) ==
  [s EXCEPT ![a].at = [r \in Routes |-> IF @[r] = t THEN None ELSE @[r]], ![a].stale = @ \cup {t}]

\* go to route r of app a; a handler may itself navigate on, or unregister itself
RECURSIVE Go(_, _, _, _)
Go(s, a, r, fuel) ==
  LET t == s[a].at[r] IN
  IF t = None THEN [s |-> s, out |-> Out(<<>>, "-", 1)]
  ELSE CASE s[a].b[t] = "throw" -> [s |-> s, out |-> Out(<<t>>, "threw", 0)]
         [] s[a].b[t] = "off"   -> [s |-> Drop(s, a, t), out |-> Out(<<t>>, "-", 0)]
         \* gives the route up and takes it again
         [] s[a].b[t] = "renew" -> [s |-> [s EXCEPT ![a].stale = @ \cup {t}], out |-> Out(<<t>>, "-", 0)]
         [] s[a].b[t] = "go" /\ fuel > 0 ->
              LET n == Go(s, a, NextR(r), fuel - 1) IN
              [n EXCEPT !.out.calls = <<t>> \o @]
         [] OTHER -> [s |-> s, out |-> Out(<<t>>, "-", 0)]

Do(s, e) ==
  LET a == e.a IN
  CASE e.op = "register" ->
         IF s[a].at[e.r] # None
         THEN [s |-> [s EXCEPT ![a].stale = @ \cup {e.t}], out |-> Out(<<>>, "-", 1)]
         ELSE [s |-> [s EXCEPT ![a].at[e.r] = e.t, ![a].b[e.t] = e.b], out |-> Out(<<>>, "-", 0)]
    [] e.op = "unregister" -> [s |-> Drop(s, a, e.t), out |-> Out(<<>>, "-", 0)]
    [] e.op = "stale"      -> [s |-> s, out |-> Out(<<>>, "-", 0)]
    [] e.op = "clear"      ->
         [s |-> [s EXCEPT ![a].stale = @ \cup {t \in Slots : ~Free(s, a, t)}, ![a].at = [r \in Routes |-> None]],
          out |-> Out(<<>>, "-", 0)]
    [] e.op = "config"     -> [s |-> [s EXCEPT ![a].init = e.r], out |-> Out(<<>>, "-", 0)]
    [] e.op = "config0"    -> [s |-> s, out |-> Out(<<>>, "-", 0)]
    [] e.op = "stray"      -> [s |-> s, out |-> Out(<<>>, "-", 1)]   \* to a name like that of r, which nobody registers
    [] e.op = "go"         -> Go(s, a, e.r, 1)
    [] e.op = "home"       -> Go(s, a, s[a].init, 1)

ObsOf(s) == [has |-> [a \in Apps |-> [r \in Routes |-> s[a].at[r] # None]], alien |-> <<>>]

--------------------------------------------------------------------------------
\* behaviour is only state while registered
Clean(s) == [a \in Apps |-> [s[a] EXCEPT !.b = [t \in Slots |-> IF Free(s, a, t) THEN "plain" ELSE @[t]]]]
Inputs(s) ==
  {e \in
    [op : {"config", "go", "stray"}, a : Apps, r : Routes]
    \cup [op : {"clear", "home"}, a : Apps]
    \cup {[op |-> "register", a |-> a, r |-> r, t |-> t, b |-> b] :
            a \in Apps, r \in Routes, t \in {x \in Slots : \A y \in Apps : Free(s, y, x)}, b \in Behs}
    \cup {[op |-> "unregister", a |-> a, t |-> t] : a \in Apps, t \in {x \in Slots : \E y \in Apps : ~Free(s, y, x)}}
    \cup {[op |-> "stale", a |-> a, t |-> t] : a \in Apps, t \in Slots}
   : /\ e.op \in Ops
     /\ e.op = "unregister" => ~Free(s, e.a, e.t)
     /\ e.op = "stale" => e.t \in s[e.a].stale}

Init ==
  /\ st = InitSt([n |-> 0])
  /\ act = [in |-> [op |-> "new", cfg |-> [n |-> 0]], out |-> Out(<<>>, "-", 0)]
Next == \E e \in Inputs(st) : LET r == Do(st, e) IN st' = Clean(r.s) /\ act' = [in |-> e, out |-> r.out]
View == st

--------------------------------------------------------------------------------
OneRoutePerSlot == \A a \in Apps : \A r, q \in Routes : (st[a].at[r] = st[a].at[q] /\ st[a].at[r] # None) => r = q
\* C12: an outdated unregister function removes nothing
StaleHarmless == [][act'.in.op = "stale" => UNCHANGED st]_<<st, act>>
\* C12: a registration is removed by its own unregister function, by clear, or by itself
Owned ==
  [][\A a \in Apps : \A r \in Routes :
       (st[a].at[r] # None /\ st'[a].at[r] # st[a].at[r]) =>
          \/ act'.in.op = "clear" /\ act'.in.a = a
          \/ act'.in.op = "unregister" /\ act'.in.t = st[a].at[r]
          \/ act'.in.op \in {"go", "home"} /\ st[a].b[st[a].at[r]] = "off"]_<<st, act>>
\* C12: an unknown route calls nothing and is an error; a known one calls its handler first
Navigates ==
  [][act'.in.op \in {"go", "home"} =>
       LET a == act'.in.a
           r == IF act'.in.op = "go" THEN act'.in.r ELSE st[a].init
       IN IF st[a].at[r] = None THEN act'.out.calls = <<>> /\ act'.out.errors = 1
          ELSE act'.out.calls[1] = st[a].at[r]]_<<st, act>>
\* C12: clearing keeps the configuration; apps are apart
ConfigStays == [][act'.in.op # "config" => \A a \in Apps : st'[a].init = st[a].init]_<<st, act>>
AppsApart == [][\A a \in Apps : a # act'.in.a => st'[a] = st[a]]_<<st, act>>

EmitInit == TLCGet("level") > 1 \/ PrintT("@I" \o ToJson([a |-> act, t |-> st, o |-> ObsOf(st)]))
EmitNext == PrintT("@T" \o ToJson([s |-> st, a |-> act', t |-> st', o |-> ObsOf(st')]))
================================================================================
