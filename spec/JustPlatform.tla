------------------------------ MODULE JustPlatform ------------------------------
(* The platform (@just-web/os) and the keys it decides (formatKeyBinding of        *)
(* @just-web/keyboard). A page runs on one platform; an app with the os gizmo says *)
(* whether it is macOS, an app with the test gizmo what its options say.           *)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS
  Pages,    \* platforms a page runs on
  Apps,
  Gizmos,   \* os gizmos: "real", "testNone" (no options), "testTrue", "testFalse", "testAsk" (the answer changes)
  Shapes,   \* key bindings: which of key and mac they have
  Ops

VARIABLES st, act

IsMacPage(p) == p \in {"mac", "macSafari", "macOld"}

InitSt(cfg) == [page |-> cfg.page, os |-> [a \in Apps |-> "no"], answer |-> FALSE]

IsMac(s, a) ==
  CASE s.os[a] \in {"real", "testNone"} -> IsMacPage(s.page)
    [] s.os[a] = "testTrue" -> TRUE
    [] s.os[a] = "testFalse" -> FALSE
    [] s.os[a] = "testAsk" -> s.answer

\* "key", "mac": which of the two; "none": neither
KeyOf(m, k) ==
  CASE k = "both" -> IF m THEN "mac" ELSE "key"
    [] k = "key" -> "key"
    [] k = "mac" -> IF m THEN "mac" ELSE "none"
    [] k = "neither" -> "none"

Do(s, e) ==
  CASE e.op = "create" -> [s |-> [s EXCEPT !.os[e.a] = e.g], out |-> "-"]
    [] e.op = "isMac" -> [s |-> s, out |-> IF IsMac(s, e.a) THEN "yes" ELSE "no"]
    [] e.op = "page" -> [s |-> s, out |-> IF IsMacPage(s.page) THEN "yes" ELSE "no"]
    [] e.op = "format" -> [s |-> s, out |-> KeyOf(IsMac(s, e.a), e.k)]
    [] e.op = "flip" -> [s |-> [s EXCEPT !.answer = ~@], out |-> "-"]

ObsOf(s) == [a \in Apps |-> IF s.os[a] = "no" THEN "no" ELSE IF IsMac(s, a) THEN "mac" ELSE "other"]

--------------------------------------------------------------------------------
Inputs(s) ==
  {e \in
     [op : {"create"}, a : Apps, g : Gizmos]
     \cup [op : {"isMac"}, a : Apps]
     \cup [op : {"format"}, a : Apps, k : Shapes]
     \cup [op : {"page", "flip"}]
   : /\ e.op \in Ops
     /\ e.op = "create" <=> e.op \notin {"page", "flip"} /\ s.os[e.a] = "no"}

Init == \E p \in Pages :
  LET cfg == [page |-> p] IN st = InitSt(cfg) /\ act = [in |-> [op |-> "new", cfg |-> cfg], out |-> "-"]
Next == \E e \in Inputs(st) : LET r == Do(st, e) IN st' = r.s /\ act' = [in |-> e, out |-> r.out]
View == st

--------------------------------------------------------------------------------
\* C27: real apps of a page agree with the page, whatever test apps say
Agree == \A a \in Apps : st.os[a] = "real" => (IsMac(st, a) <=> IsMacPage(st.page))
\* C27: a key is there unless the binding has none for the platform, and mac counts on macOS only
KeyChoice ==
  [][act'.in.op = "format" =>
       /\ act'.out = "mac" => IsMac(st, act'.in.a)
       /\ act'.in.k \in {"both", "key"} => act'.out # "none"]_<<st, act>>
\* C27: asking changes nothing, and one app does not change another
AppsApart == [][\A a \in Apps : (act'.in.op # "create" \/ act'.in.a # a) => st'.os[a] = st.os[a]]_<<st, act>>

EmitInit == TLCGet("level") > 1 \/ PrintT("@I" \o ToJson([a |-> act, t |-> st, o |-> ObsOf(st)]))
EmitNext == PrintT("@T" \o ToJson([s |-> st, a |-> act', t |-> st', o |-> ObsOf(st')]))
================================================================================
