-------------------------------- MODULE JustIntl --------------------------------
(* Texts of apps with @just-web/formatjs: every app formats by the configuration   *)
(* given to its gizmo, through the cache given to it.                              *)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS
  Apps,
  Locales,   \* of texts and numbers
  Defaults,  \* locales of the default texts; "unset": none is given
  Catalogs,  \* translations an app has: "none", "some" (m1), "all" (m1 and m2)
  Caches,    \* "none", "own", "shared" (one of several apps)
  Ids,       \* "m1", "m2", "m3"
  Ops

VARIABLES st, act

InitSt(cfg) ==
  [app |-> [a \in Apps |-> [up |-> FALSE, l |-> "en", d |-> "en", cat |-> "none", cache |-> "none"]],
   own |-> [a \in Apps |-> FALSE],    \* whether something is in the app's own cache
   shared |-> FALSE]

\* default texts are English unless the configuration says otherwise
DefaultOf(x) == IF x.d = "unset" THEN "en" ELSE x.d

In(cat, id) == (cat = "some" /\ id = "m1") \/ (cat = "all" /\ id \in {"m1", "m2"})
None == [a \in Apps |-> 0]

\* an app that formats leaves what it made in its cache
Used(s, a) ==
  CASE s.app[a].cache = "own" -> [s EXCEPT !.own[a] = TRUE]
    [] s.app[a].cache = "shared" -> [s EXCEPT !.shared = TRUE]
    [] OTHER -> s

Msg(s, a, id, dflt) ==
  LET x == s.app[a] IN
  CASE In(x.cat, id) -> [s |-> Used(s, a), out |-> [text |-> "text", l |-> x.l, errors |-> None]]
    [] ~In(x.cat, id) /\ dflt ->
         \* missing translations are reported, unless the texts are those of the locale
         [s |-> Used(s, a), out |-> [text |-> "default", l |-> DefaultOf(x), errors |-> IF x.l = DefaultOf(x) THEN None ELSE [None EXCEPT ![a] = 1]]]
    [] OTHER -> [s |-> s, out |-> [text |-> "id", l |-> "-", errors |-> [None EXCEPT ![a] = 1]]]

Do(s, e) ==
  CASE e.op = "create" ->
         [s |-> [s EXCEPT !.app[e.a] = [up |-> TRUE, l |-> e.l, d |-> e.d, cat |-> e.cat, cache |-> e.cache]],
          out |-> [text |-> "-", l |-> e.l, errors |-> None]]
    [] e.op = "msg" -> Msg(s, e.a, e.id, e.dflt)
    [] e.op = "num" -> [s |-> Used(s, e.a), out |-> [text |-> "number", l |-> s.app[e.a].l, errors |-> None]]

ObsOf(s) ==
  [a \in Apps |->
     IF ~s.app[a].up THEN "no"
     ELSE CASE s.app[a].cache = "own" -> IF s.own[a] THEN "used" ELSE "empty"
            [] s.app[a].cache = "shared" -> IF s.shared THEN "used" ELSE "empty"
            [] OTHER -> "none"]

--------------------------------------------------------------------------------
Inputs(s) ==
  {e \in
     [op : {"create"}, a : Apps, l : Locales, d : Defaults, cat : Catalogs, cache : Caches]
     \cup [op : {"msg"}, a : Apps, id : Ids, dflt : BOOLEAN]
     \cup [op : {"num"}, a : Apps]
   : e.op \in Ops /\ (e.op = "create" <=> ~s.app[e.a].up)}

Init == LET cfg == [n |-> 0] IN
  st = InitSt(cfg) /\ act = [in |-> [op |-> "new", cfg |-> cfg], out |-> [text |-> "-", l |-> "-", errors |-> None]]
Next == \E e \in Inputs(st) : LET r == Do(st, e) IN st' = r.s /\ act' = [in |-> e, out |-> r.out]
View == st

--------------------------------------------------------------------------------
\* C28: the locale of a text is one the app was given
OwnLocale ==
  [][act'.in.op \in {"msg", "num"} /\ act'.out.text # "id" => act'.out.l \in {st.app[act'.in.a].l, DefaultOf(st.app[act'.in.a])}]_<<st, act>>
\* C28: errors are reported to the app itself, and none for a text there is
OwnErrors ==
  [][\A a \in Apps : act'.out.errors[a] > 0 =>
       a = act'.in.a /\ act'.in.op = "msg" /\ ~In(st.app[a].cat, act'.in.id)]_<<st, act>>
\* C28: formatting changes no configuration, and one app does not change another
AppsApart == [][\A a \in Apps : (act'.in.op # "create" \/ act'.in.a # a) => st'.app[a] = st.app[a]]_<<st, act>>
\* C28: a cache that was not given stays untouched
CacheGiven == \A a \in Apps : st.own[a] => st.app[a].cache = "own"

EmitInit == TLCGet("level") > 1 \/ PrintT("@I" \o ToJson([a |-> act, t |-> st, o |-> ObsOf(st)]))
EmitNext == PrintT("@T" \o ToJson([s |-> st, a |-> act', t |-> st', o |-> ObsOf(st')]))
================================================================================
