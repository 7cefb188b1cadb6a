------------------------------ MODULE JustReach ------------------------------
(* How apps reach out: app.fetch of the fetch and browser gizmos and their test      *)
(* variants, and app.history of the history gizmo, of several apps on one page.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Apps, FetchChains, HistChains, Kinds, Paths, Slots, MaxStack, Versions, Ops

VARIABLES st, act

Fetches == {"real", "double", "own1", "browser", "browserOpt", "browserTest", "browserTestOpt"}
\* every chain of up to three gizmos
Chains3 == UNION {[1 .. n -> Fetches] : n \in 1 .. 3}
\* of two apps
Chains2 == {<<"real">>, <<"double">>, <<"own1">>, <<"own2">>, <<"own1", "browser">>, <<"browserTest">>}
NoChain == {<<>>}
HistChains2 == {<<"page">>, <<"g1">>, <<"g2">>, <<"page", "g1">>, <<"g1", "page">>, <<"g1", "g2">>}
HistsOfTwo == {<<"page">>, <<"g1">>}
Both == {<<"page">>, <<"g1">>, <<"g2">>, <<>>}

Hists == {"page", "g1", "g2"}
NoApp == [up |-> FALSE, f |-> <<>>, h |-> <<>>, ver |-> 0]
Start == [stack |-> <<"start">>, idx |-> 1]

\* ver: which fetch the page has; ls: the listeners of an app in the order they were added
InitSt(cfg) ==
  [apps |-> [a \in Apps |-> NoApp], ver |-> 0, hs |-> [h \in Hists |-> Start], ls |-> [a \in Apps |-> <<>>]]

\* the fetch in effect behind the gizmos of the chain: "page" is the one of the page when the app is created,
\* "loaded" the one of the page when the packages were loaded
RECURSIVE FetchOf(_)
FetchOf(f) ==
  IF f = <<>> THEN "none"
  ELSE LET before == FetchOf(SubSeq(f, 1, Len(f) - 1))
           last == f[Len(f)] IN
       CASE last \in {"real", "double"} -> "page"
         [] last \in {"own1", "own2"} -> last
         [] last \in {"browserOpt", "browserTestOpt"} -> "opt"
         [] last \in {"browser", "browserTest"} -> IF before = "none" THEN "loaded" ELSE before
HistOf(h) == IF h = <<>> THEN "none" ELSE h[Len(h)]

Target(s, a) ==
  LET t == FetchOf(s.apps[a].f) IN
  [to |-> IF t = "loaded" THEN "page" ELSE t, ver |-> IF t = "page" THEN s.apps[a].ver ELSE 0]

\* the apps that hear of a move on history h made through app a
Hears(s, a, h, pop) ==
  {b \in Apps : s.apps[b].up /\ HistOf(s.apps[b].h) = h /\ (h # "page" \/ pop \/ b = a)}
Tell(s, a, h, action, path) ==
  [b \in Apps |->
     IF b \in Hears(s, a, h, action = "POP")
     THEN [i \in 1 .. Len(s.ls[b]) |-> [l |-> s.ls[b][i], action |-> action, path |-> path]]
     ELSE <<>>]

Move(s, a, hist, action) ==
  LET h == HistOf(s.apps[a].h)
      path == hist.stack[hist.idx] IN
  [s |-> [s EXCEPT !.hs[h] = hist],
   out |-> [op |-> "move", shows |-> [path |-> path, action |-> action], ev |-> Tell(s, a, h, action, path)]]

Quiet == [op |-> "quiet"]
Do(s, e) ==
  CASE e.op = "create" ->
         [s |-> [s EXCEPT !.apps[e.a] = [up |-> TRUE, f |-> e.f, h |-> e.h, ver |-> s.ver]],
          out |-> [op |-> "create", fetch |-> e.f # <<>>, history |-> HistOf(e.h)]]
    [] e.op = "pageFetch" -> [s |-> [s EXCEPT !.ver = e.ver], out |-> Quiet]
    [] e.op = "fetch" ->
         [s |-> s,
          out |-> [op |-> "fetch", to |-> Target(s, e.a), calls |-> IF e.k \in {"two", "twin"} THEN 2 ELSE 1,
                   args |-> TRUE, result |-> TRUE]]
    [] e.op = "listen" -> [s |-> [s EXCEPT !.ls[e.a] = Append(@, e.l)], out |-> Quiet]
    [] e.op = "unlisten" -> [s |-> [s EXCEPT !.ls[e.a] = SelectSeq(@, LAMBDA l : l # e.l)], out |-> Quiet]
    [] e.op = "push" ->
         LET x == s.hs[HistOf(s.apps[e.a].h)] IN
         Move(s, e.a, [stack |-> Append(SubSeq(x.stack, 1, x.idx), e.path), idx |-> x.idx + 1], "PUSH")
    [] e.op = "replace" ->
         LET x == s.hs[HistOf(s.apps[e.a].h)] IN Move(s, e.a, [x EXCEPT !.stack[x.idx] = e.path], "REPLACE")
    [] e.op = "back" ->
         LET x == s.hs[HistOf(s.apps[e.a].h)] IN Move(s, e.a, [x EXCEPT !.idx = @ - 1], "POP")
    [] e.op = "forward" ->
         LET x == s.hs[HistOf(s.apps[e.a].h)] IN Move(s, e.a, [x EXCEPT !.idx = @ + 1], "POP")

ObsOf(s) == [h \in Hists |-> s.hs[h].stack[s.hs[h].idx]]

--------------------------------------------------------------------------------
Up(s) == {a \in Apps : s.apps[a].up}
HasF(s) == {a \in Up(s) : s.apps[a].f # <<>>}
HasH(s) == {a \in Up(s) : s.apps[a].h # <<>>}
Hist(s, a) == s.hs[HistOf(s.apps[a].h)]
In(seq, x) == \E i \in 1 .. Len(seq) : seq[i] = x
\* which fetch of the page an app uses is settled as long as the page has the one it had at load, resp. creation
Settled(s, f) == FetchOf(f) # "loaded" \/ s.ver = 0
Inputs(s) ==
  {e \in
     {[op |-> "create", a |-> a, f |-> f, h |-> h] : a \in Apps \ Up(s), f \in {x \in FetchChains : Settled(s, x)}, h \in HistChains}
     \cup {[op |-> "pageFetch", ver |-> v] : v \in {x \in Versions : x # s.ver /\ \A a \in Up(s) : FetchOf(s.apps[a].f) \notin {"page", "loaded"}}}
     \cup {[op |-> "fetch", a |-> a, k |-> k] : a \in HasF(s), k \in Kinds}
     \cup {[op |-> "listen", a |-> a, l |-> l] : a \in HasH(s), l \in Slots}
     \cup {[op |-> "unlisten", a |-> a, l |-> l] : a \in HasH(s), l \in Slots}
     \cup {[op |-> "push", a |-> a, path |-> p] : a \in HasH(s), p \in Paths}
     \cup {[op |-> "replace", a |-> a, path |-> p] : a \in HasH(s), p \in Paths}
     \cup {[op |-> "back", a |-> a] : a \in {x \in HasH(s) : Hist(s, x).idx > 1}}
     \cup {[op |-> "forward", a |-> a] : a \in {x \in HasH(s) : Hist(s, x).idx < Len(Hist(s, x).stack)}}
   : /\ e.op \in Ops
     /\ e.op = "push" => Hist(s, e.a).idx < MaxStack
     /\ e.op = "listen" => ~In(s.ls[e.a], e.l)
     /\ e.op = "unlisten" => In(s.ls[e.a], e.l)}

Init ==
  /\ st = InitSt([n |-> 0])
  /\ act = [in |-> [op |-> "new", cfg |-> [n |-> 0]], out |-> Quiet]
Next == \E e \in Inputs(st) : LET r == Do(st, e) IN st' = r.s /\ act' = [in |-> e, out |-> r.out]
View == st

--------------------------------------------------------------------------------
\* C31: a request goes to the fetch of the last gizmo that brings one, and the browser gizmo brings one only by its options
LastBrings ==
  [][act'.in.op = "fetch" =>
       LET f == st.apps[act'.in.a].f
           brings == {i \in 1 .. Len(f) : f[i] \notin {"browser", "browserTest"}}
           last == CHOOSE i \in brings : \A j \in brings : j <= i IN
       IF brings = {} THEN act'.out.to.to = "page"
       ELSE act'.out.to.to = CASE f[last] \in {"own1", "own2"} -> f[last]
                               [] f[last] \in {"real", "double"} -> "page"
                               [] OTHER -> "opt"]_<<st, act>>
\* C31: a move through an app moves its history and no other
MovesOwn ==
  [][\A h \in Hists : st'.hs[h] # st.hs[h] =>
        act'.in.op \in {"push", "replace", "back", "forward"} /\ HistOf(st.apps[act'.in.a].h) = h]_<<st, act>>
\* C31: the listeners of an app hear of every move through it, once each, and of no move on another history
Heard ==
  [][act'.out.op = "move" =>
       /\ Len(act'.out.ev[act'.in.a]) = Len(st.ls[act'.in.a])
       /\ \A b \in Apps : act'.out.ev[b] # <<>> => HistOf(st.apps[b].h) = HistOf(st.apps[act'.in.a].h)]_<<st, act>>
\* C31: going back and forward again shows what was shown
StackKept ==
  [][act'.in.op \in {"back", "forward"} => \A h \in Hists : st'.hs[h].stack = st.hs[h].stack]_<<st, act>>

EmitInit == TLCGet("level") > 1 \/ PrintT("@I" \o ToJson([a |-> act, t |-> st, o |-> ObsOf(st)]))
EmitNext == PrintT("@T" \o ToJson([s |-> st, a |-> act', t |-> st', o |-> ObsOf(st')]))
================================================================================
