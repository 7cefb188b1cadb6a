------------------------------ MODULE JustBuiltin ------------------------------
(* The commands the packages of just-web bring to an app: showing the command       *)
(* palette, the user preferences, and the language.                                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Apps, Kinds, Vals, Langs, Ops

VARIABLES st, act

None == "none"
Cmds == {"show", "get", "set", "clear", "lang"}
Prefs == {"get", "set", "clear"}
\* the packages bring these as commands of the app, and those as handlers only
Public == {"show", "clear", "lang"}
\* what an app of a kind is made with
Keyb(k) == k \notin {"plain", "memory", "lang"}
Impl(k) == k \in {"memory", "full", "mine"}
I18n(k) == k \in {"full", "mine", "lang"}
Given(k) == k \in {"mine", "mineBare"}
Brings(k) == (IF Impl(k) THEN Prefs ELSE {}) \cup (IF I18n(k) THEN {"lang"} ELSE {})

Down == [kind |-> None, h |-> [c \in Cmds |-> None], c |-> [c \in Cmds |-> "no"], kb |-> "no",
         pref |-> None, lang |-> "init"]
NewApp(k) ==
  [kind |-> k,
   h |-> [c \in Cmds |-> IF c \in Brings(k) THEN "own" ELSE IF Given(k) THEN "user" ELSE None],
   c |-> [c \in Cmds |-> IF Given(k) THEN "mine" ELSE IF c \in Brings(k) \cap Public THEN "std" ELSE "no"],
   kb |-> IF Given(k) THEN "mine" ELSE "no",
   pref |-> None, lang |-> "init"]

\* last: the app the function of a package was connected to last
InitSt(cfg) == [apps |-> [a \in Apps |-> Down], last |-> [c \in Cmds |-> None]]

\* ran: handlers of the user and of the palette that ran; err: errors logged by that app; page: by the page
Out(ran, res, err, page) == [ran |-> ran, res |-> res, err |-> err, page |-> page]
Quiet == Out(<<>>, None, 0, 0)
One(a, c, h, v) == <<[a |-> a, c |-> c, h |-> h, v |-> v]>>

Or(v, d) == IF v = None THEN d ELSE v
Call(s, a, c, v) ==
  LET x == s.apps[a]
      arg == IF c \in {"show", "clear"} THEN None ELSE v
  IN
  CASE x.h[c] = None -> [s |-> s, out |-> Out(<<>>, None, 1, 0)]
    [] x.h[c] = "user" -> [s |-> s, out |-> Out(One(a, c, "user", arg), IF c = "get" THEN "user" ELSE None, 0, 0)]
    [] c = "show" -> [s |-> s, out |-> Out(One(a, c, "own", arg), None, 0, 0)]
    [] c = "get" -> [s |-> s, out |-> Out(<<>>, Or(x.pref, v), 0, 0)]
    [] c = "set" -> [s |-> [s EXCEPT !.apps[a].pref = v], out |-> Quiet]
    [] c = "clear" -> [s |-> [s EXCEPT !.apps[a].pref = None], out |-> Quiet]
    [] c = "lang" -> [s |-> [s EXCEPT !.apps[a].lang = v], out |-> Quiet]

Do(s, e) ==
  CASE e.op = "up" ->
         [s |-> [apps |-> [s.apps EXCEPT ![e.a] = NewApp(e.k)],
                 last |-> [c \in Cmds |-> IF c \in Brings(e.k) THEN e.a ELSE s.last[c]]],
          \* the contributions the app was given stay
          out |-> Out(<<>>, None, IF Given(e.k) THEN Cardinality(Brings(e.k) \cap Public) ELSE 0, 0)]
    [] e.op = "palette" ->
         LET x == s.apps[e.a] IN
         [s |-> [apps |-> [s.apps EXCEPT
                   ![e.a].h["show"] = "own",
                   ![e.a].c["show"] = IF x.c["show"] = "no" THEN "std" ELSE @,
                   ![e.a].kb = IF x.kb = "no" /\ Keyb(x.kind) THEN "std" ELSE @],
                 last |-> [s.last EXCEPT !["show"] = e.a]],
          out |-> Out(<<>>, None, IF x.c["show"] = "no" THEN 0 ELSE 1, 0)]
    [] e.op = "replace" -> [s |-> [s EXCEPT !.apps[e.a].h[e.c] = "user"], out |-> Quiet]
    [] e.op = "call" -> Call(s, e.a, e.c, e.v)
    [] e.op = "pkg" ->
         IF s.last[e.c] = None THEN [s |-> s, out |-> Out(<<>>, None, 0, 1)] ELSE Call(s, s.last[e.c], e.c, e.v)
    \* a key is pressed: that of the package, or the one the app was given for it
    [] e.op = "press" ->
         IF s.apps[e.a].kb = e.k THEN Call(s, e.a, "show", None) ELSE [s |-> s, out |-> Quiet]
    \* not through the command
    [] e.op = "setLanguage" -> [s |-> [s EXCEPT !.apps[e.a].lang = e.v], out |-> Quiet]

ObsOf(s) ==
  [a \in Apps |->
     LET x == s.apps[a] IN
     [x EXCEPT !.h = [c \in Cmds |-> x.h[c] # None],
               !.pref = IF x.h["get"] = "own" THEN x.pref ELSE IF x.h["get"] = "user" THEN "user" ELSE None]]

--------------------------------------------------------------------------------
Args(c) == CASE c \in {"show", "clear"} -> {None} [] c = "lang" -> Langs [] OTHER -> Vals \cup {None}
Calls == UNION {{[c |-> c, v |-> v] : v \in Args(c)} : c \in Cmds}
Inputs(s) ==
  LET Up == {a \in Apps : s.apps[a].kind # None} IN
  {e \in
     {[op |-> "up", a |-> a, k |-> k] : a \in Apps \ Up, k \in Kinds}
     \cup {[op |-> "palette", a |-> a] : a \in Up}
     \cup {[op |-> "replace", a |-> a, c |-> c] : a \in Up, c \in Cmds}
     \cup {[op |-> "call", a |-> a, c |-> x.c, v |-> x.v] : a \in Up, x \in Calls}
     \cup {[op |-> "press", a |-> a, k |-> k] : a \in Up, k \in {"std", "mine"}}
     \cup {[op |-> "pkg", c |-> x.c, v |-> x.v] : x \in Calls}
     \cup {[op |-> "setLanguage", a |-> a, v |-> l] : a \in {b \in Up : I18n(s.apps[b].kind)}, l \in Langs}
   : e.op \in Ops}

Init ==
  /\ st = InitSt([n |-> 0])
  /\ act = [in |-> [op |-> "new", cfg |-> [n |-> 0]], out |-> Quiet]
Next == \E e \in Inputs(st) : LET r == Do(st, e) IN st' = r.s /\ act' = [in |-> e, out |-> r.out]
View == st

--------------------------------------------------------------------------------
Kind(a) == st.apps[a].kind
\* C30: what a package brings has a handler, and is announced when it is public
Brought == \A a \in Apps : Kind(a) # None => \A c \in Brings(Kind(a)) :
             st.apps[a].h[c] # None /\ (c \in Public => st.apps[a].c[c] # "no")
\* C30: what is announced by a package can be run, and has its key only with a keyboard
Runs == \A a \in Apps : /\ \A c \in Cmds : st.apps[a].c[c] = "std" => c \in Public /\ st.apps[a].h[c] # None
                        /\ st.apps[a].kb = "std" => Keyb(Kind(a)) /\ st.apps[a].h["show"] # None
\* C30: reading and writing one preference is not announced
Hidden == \A a \in Apps : \A c \in Cmds \ Public : st.apps[a].c[c] # "std"
\* C30: what the app was given is kept as it was announced
Kept == [][\A a \in Apps : \A c \in Cmds :
             st.apps[a].c[c] # "no" => st'.apps[a].c[c] = st.apps[a].c[c]]_<<st, act>>
\* C30: a command runs in one app: that which it was given to, or that of the function
OneApp == [][act'.in.op = "pkg" => \A a \in Apps : a # st.last[act'.in.c] => st'.apps[a] = st.apps[a]]_<<st, act>>
OwnOnly == [][act'.in.op \in {"call", "palette", "replace"} => \A a \in Apps \ {act'.in.a} : st'.apps[a] = st.apps[a]]_<<st, act>>
\* C30: a replaced command no longer does what it did
Replaced == [][act'.in.op = "call" /\ st.apps[act'.in.a].h[act'.in.c] = "user" => st' = st /\ Len(act'.out.ran) = 1]_<<st, act>>

EmitInit == TLCGet("level") > 1 \/ PrintT("@I" \o ToJson([a |-> act, t |-> st, o |-> ObsOf(st)]))
EmitNext == PrintT("@T" \o ToJson([s |-> st, a |-> act', t |-> st', o |-> ObsOf(st')]))
================================================================================
