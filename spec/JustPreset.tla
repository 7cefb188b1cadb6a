------------------------------ MODULE JustPreset ------------------------------
(* Host apps with the browser preset or its test variant (@just-web/presets-browser): *)
(* what the preset adds, what it leaves alone, and where requests, navigations and    *)
(* preferences go.                                                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Apps, Presets, Kbs, Earlies, OptFetches, Lates, Hists, Doubles, Paths, Kinds, Ops

VARIABLES st, act

\* an app: which preset; with a keyboard; a fetch of an earlier gizmo; one in the options; one of a later gizmo;
\* a history in the options; the doubles given to the test preset
Configs ==
  {c \in [p : Presets, kb : Kbs, early : Earlies, opt : OptFetches, late : Lates, hist : Hists, dbl : Doubles] :
     c.p = "real" => c.dbl = "none"}

NoApp == [p |-> "no", kb |-> FALSE, early |-> "none", opt |-> FALSE, late |-> FALSE, hist |-> FALSE, dbl |-> "none"]

\* path: of the page, of the history that is given, and of the memory history of each app
InitSt(cfg) ==
  [apps |-> [a \in Apps |-> NoApp], page |-> "start", given |-> "start", mem |-> [a \in Apps |-> "start"],
   prefs |-> [a \in Apps |-> "none"]]

Is(s, a) == s.apps[a].p # "no"
HistKind(c) == IF c.hist THEN "given" ELSE IF c.p = "real" THEN "browser" ELSE "memory"
FetchOf(c) ==
  IF c.late THEN "late"
  ELSE IF c.opt THEN "opt"
  ELSE IF c.early = "own" THEN "early"
  ELSE "page"
\* which storage, navigator and location
Place(c, what) == IF c.dbl = "all" \/ (c.dbl = "local" /\ what = "localStorage") THEN "double" ELSE "page"

Quiet == [op |-> "quiet"]
Do(s, e) ==
  CASE e.op = "create" ->
         [s |-> [s EXCEPT !.apps[e.a] = e.c, !.mem[e.a] = "start"],
          out |-> [op |-> "create", host |-> TRUE, kb |-> e.c.kb, adds |-> TRUE, events |-> 1,
                   place |-> [w \in {"localStorage", "sessionStorage", "navigator", "location"} |-> Place(e.c, w)]]]
    [] e.op = "fetch" ->
         [s |-> s, out |-> [op |-> "fetch", to |-> FetchOf(s.apps[e.a]), calls |-> 1, args |-> TRUE, result |-> TRUE]]
    [] e.op = "push" ->
         [s |-> CASE HistKind(s.apps[e.a]) = "given" -> [s EXCEPT !.given = e.path]
                  [] HistKind(s.apps[e.a]) = "browser" -> [s EXCEPT !.page = e.path]
                  [] OTHER -> [s EXCEPT !.mem[e.a] = e.path],
          out |-> [op |-> "push", shows |-> TRUE]]
    [] e.op = "pref" ->
         [s |-> [s EXCEPT !.prefs[e.a] = IF e.v = "remove" THEN "none" ELSE Place(s.apps[e.a], "localStorage")], out |-> Quiet]

ObsOf(s) ==
  [page |-> s.page, given |-> s.given,
   mem |-> [a \in Apps |-> IF Is(s, a) /\ HistKind(s.apps[a]) = "memory" THEN s.mem[a] ELSE "no"],
   prefs |-> s.prefs]

--------------------------------------------------------------------------------
Inputs(s) ==
  {e \in
     {[op |-> "create", a |-> a, c |-> c] : a \in {x \in Apps : ~Is(s, x)}, c \in Configs}
     \cup {[op |-> "fetch", a |-> a, k |-> k] : a \in {x \in Apps : Is(s, x)}, k \in Kinds}
     \cup {[op |-> "push", a |-> a, path |-> p] : a \in {x \in Apps : Is(s, x)}, p \in Paths}
     \cup {[op |-> "pref", a |-> a, v |-> v] : a \in {x \in Apps : Is(s, x)}, v \in {"set", "remove"}}
   : e.op \in Ops}

Init ==
  /\ st = InitSt([n |-> 0])
  /\ act = [in |-> [op |-> "new", cfg |-> [n |-> 0]], out |-> Quiet]
Next == \E e \in Inputs(st) : LET r == Do(st, e) IN st' = r.s /\ act' = [in |-> e, out |-> r.out]
View == st

--------------------------------------------------------------------------------
\* C24: the fetch of the options goes before an earlier one, and that before the page's
Precedence ==
  [][act'.in.op = "fetch" =>
       LET c == st.apps[act'.in.a] IN
       /\ (c.opt /\ ~c.late) => act'.out.to = "opt"
       /\ (~c.opt /\ ~c.late /\ c.early = "own") => act'.out.to = "early"
       /\ (~c.opt /\ ~c.late /\ c.early # "own") => act'.out.to = "page"]_<<st, act>>
\* C24: only an app whose history is the browser's moves the page
PageMoves ==
  [][st'.page # st.page => act'.in.op = "push" /\ st.apps[act'.in.a].p = "real" /\ ~st.apps[act'.in.a].hist]_<<st, act>>
\* C24: a preference goes to the storage the app was given
PrefPlace == \A a \in Apps : st.prefs[a] = "double" => st.apps[a].dbl # "none"

EmitInit == TLCGet("level") > 1 \/ PrintT("@I" \o ToJson([a |-> act, t |-> st, o |-> ObsOf(st)]))
EmitNext == PrintT("@T" \o ToJson([s |-> st, a |-> act', t |-> st', o |-> ObsOf(st')]))
================================================================================
