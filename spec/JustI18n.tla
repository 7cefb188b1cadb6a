------------------------------ MODULE JustI18n ------------------------------
(* The language of apps (@just-web/i18n, @just-web/browser-i18n): set, set by    *)
(* command, listened to, and in the browser kept per app name over reloads.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Kinds, Cmds, Apps, H, Behs, MaxListen, Foreign, Ops

VARIABLES st, act

Langs == {"en", "fr", "zh"}
Unsaved == "-"
Browser(s) == s.kind = "browser"

\* what a listener does when it hears of a new language
Wants(b, new) ==
  CASE b = "fr2zh" /\ new = "fr" -> "zh"
    [] b = "zh2en" /\ new = "zh" -> "en"
    [] OTHER -> Unsaved

RECURSIVE SetL(_, _, _, _), Tell(_, _, _, _, _, _)
\* the language takes effect (and is saved) before anybody is told
SetL(s, a, new, ev) ==
  Tell([s EXCEPT !.lang[a] = new, !.saved[a] = IF Browser(s) THEN new ELSE @], a, 1, new, s.lang[a], ev)
Tell(s, a, i, new, old, ev) ==
  IF i > Len(s.hs[a]) THEN [s |-> s, ev |-> ev]
  ELSE LET h == s.hs[a][i]
           ev1 == Append(ev, [h |-> h.h, n |-> new, o |-> old, now |-> s.lang[a]])
           w == Wants(h.b, new)
           r == IF w = Unsaved THEN [s |-> s, ev |-> ev1] ELSE SetL(s, a, w, ev1)
       IN Tell(r.s, a, i + 1, new, old, r.ev)

Start(s) == [a \in Apps |-> IF Browser(s) THEN (IF s.saved[a] = Unsaved THEN s.nav ELSE s.saved[a]) ELSE "en"]
InitSt(cfg) ==
  [kind |-> cfg.kind, cmds |-> cfg.cmds, lang |-> [a \in Apps |-> "en"],
   hs |-> [a \in Apps |-> <<>>], saved |-> [a \in Apps |-> Unsaved], nav |-> "en",
   foreign |-> [f \in Foreign |-> FALSE]]

Do(s, e) ==
  CASE e.op \in {"set", "cmd"} -> LET r == SetL(s, e.a, e.l, <<>>) IN [s |-> r.s, out |-> r.ev]
    [] e.op = "clear"  -> LET r == SetL(s, e.a, s.nav, <<>>) IN [s |-> [r.s EXCEPT !.saved[e.a] = Unsaved], out |-> r.ev]
    [] e.op = "listen" -> [s |-> [s EXCEPT !.hs[e.a] = Append(@, [h |-> e.h, b |-> e.b])], out |-> <<>>]
    [] e.op = "nav"    -> [s |-> [s EXCEPT !.nav = e.l], out |-> <<>>]
    [] e.op = "other"  -> [s |-> [s EXCEPT !.foreign[e.f] = ~@], out |-> <<>>]
    [] e.op = "reload" -> [s |-> [s EXCEPT !.lang = Start(s), !.hs = [a \in Apps |-> <<>>]], out |-> <<>>]

ObsOf(s) ==
  [lang |-> s.lang,
   contributed |-> [a \in Apps |-> s.cmds],
   entries |-> Cardinality({a \in Apps : s.saved[a] # Unsaved}),
   foreign |-> s.foreign]

--------------------------------------------------------------------------------
Inputs(s) ==
  {e \in
     [op : {"set", "cmd"}, a : Apps, l : Langs]
     \cup [op : {"clear"}, a : Apps]
     \cup [op : {"listen"}, a : Apps, h : H, b : Behs]
     \cup {[op |-> "nav", l |-> l] : l \in Langs \ {s.nav}}
     \cup [op : {"other"}, f : Foreign]
     \cup {[op |-> "reload"]}
   : /\ e.op \in Ops
     /\ e.op = "cmd" => s.cmds
     /\ e.op \in {"clear", "nav", "other", "reload"} => Browser(s)
     /\ e.op = "listen" => Len(s.hs[e.a]) < MaxListen}

Init == \E k \in Kinds, c \in Cmds :
  /\ st = InitSt([kind |-> k, cmds |-> c])
  /\ act = [in |-> [op |-> "new", cfg |-> [kind |-> k, cmds |-> c]], out |-> <<>>]
Next == \E e \in Inputs(st) : LET r == Do(st, e) IN st' = r.s /\ act' = [in |-> e, out |-> r.out]
View == st

--------------------------------------------------------------------------------
\* C19: what is saved is the language in effect
SavedIsCurrent == \A a \in Apps : Browser(st) /\ st.saved[a] # Unsaved => st.saved[a] = st.lang[a]
NothingSaved == ~Browser(st) => \A a \in Apps : st.saved[a] = Unsaved
\* C18: without listeners that change it, a set is what is read
SetGet ==
  [][act'.in.op \in {"set", "cmd"} /\ (\A i \in DOMAIN st.hs[act'.in.a] : st.hs[act'.in.a][i].b = "plain") =>
       st'.lang[act'.in.a] = act'.in.l]_<<st, act>>
\* C18: each listener hears of the set once, in order, of the language before it
HeardOnce ==
  [][act'.in.op \in {"set", "cmd", "clear"} =>
       LET a == act'.in.a
           l == IF act'.in.op = "clear" THEN st.nav ELSE act'.in.l
           mine == SelectSeq(act'.out, LAMBDA x : x.n = l /\ x.o = st.lang[a])
       IN /\ Len(mine) >= Len(st.hs[a])
          /\ (Len(act'.out) = Len(st.hs[a]) => \A i \in DOMAIN act'.out : act'.out[i].h = st.hs[a][i].h)
          /\ Len(act'.out) % (IF st.hs[a] = <<>> THEN 1 ELSE Len(st.hs[a])) = 0]_<<st, act>>
\* C18/C19/C16: other apps are not affected
AppsApart ==
  [][act'.in.op \in {"set", "cmd", "clear", "listen"} =>
       \A a \in Apps \ {act'.in.a} : st'.lang[a] = st.lang[a] /\ st'.hs[a] = st.hs[a] /\ st'.saved[a] = st.saved[a]]_<<st, act>>
\* C19: a reload starts with what was saved
Survives ==
  [][act'.in.op = "reload" =>
       \A a \in Apps : st'.saved[a] = st.saved[a] /\ st'.lang[a] = (IF st.saved[a] = Unsaved THEN st.nav ELSE st.saved[a])]_<<st, act>>
ForeignStays == [][act'.in.op # "other" => st'.foreign = st.foreign]_<<st, act>>

EmitInit == TLCGet("level") > 1 \/ PrintT("@I" \o ToJson([a |-> act, t |-> st, o |-> ObsOf(st)]))
EmitNext == PrintT("@T" \o ToJson([s |-> st, a |-> act', t |-> st', o |-> ObsOf(st')]))
================================================================================
