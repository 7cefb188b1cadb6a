-------------------------------- MODULE JustId --------------------------------
(* Names and ids of apps (@just-web/id and what is built on it). Every creation   *)
(* draws from the random source; Digits gives the base 36 digits of its draws.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Forms, Draws, Names, MaxBuilders, MaxRuns

VARIABLES st, act

Zeros == "000000000000000"
Digits(d) ==
  CASE d = "long"  -> <<"pgerv2yaow", "4fzzzxkxayq">>
    [] d = "long2" -> <<"pgerv2yaow", "pgerv2yaow">>     \* the second draw differs
    [] d = "short" -> <<"i", "9">>                        \* few digits: 0.5 and 0.25
    [] d = "short2" -> <<"9", "9">>                       \* another first digit
    [] d = "short3" -> <<"i", "i">>                       \* another digit of the second draw
    [] d = "zero"  -> <<"", "">>                          \* no digits at all: 0 and 0
    [] d = "tiny"  -> <<"1", "0000000000t84r35w1ryi">>
    [] d = "top"   -> <<"zzzzzzzzzza", "zzzzzzzzzza">>
    [] d = "half"  -> <<"", "pgerv2yaow">>                \* 0 first
Id(d) == SubSeq(Digits(d)[1] \o Digits(d)[2] \o Zeros, 1, 15)

\* test forms have a default name
Default(f) == f \in {"idTest", "justTestApp", "presetTest", "all"}
InitSt(cfg) == [bs |-> <<>>, runs |-> <<>>]

\* an id clashes when a creation with other draws has got it
Out(name) == [name |-> name, form |-> TRUE, clash |-> FALSE]
Do(s, e) ==
  CASE e.op = "builder" -> [s |-> [s EXCEPT !.bs = Append(@, [f |-> e.f, name |-> e.name])], out |-> Out("")]
    [] e.op = "create" ->
         LET b == s.bs[e.b] IN
         [s |-> [s EXCEPT !.runs = Append(@, [b |-> e.b, d |-> e.d])],
          out |-> Out(IF b.name = "none" THEN "test" ELSE b.name)]

\* the names of all apps, and that they have the ids they had at first
ObsOf(s) == [k \in DOMAIN s.runs |->
  [name |-> LET n == s.bs[s.runs[k].b].name IN IF n = "none" THEN "test" ELSE n, kept |-> TRUE]]

--------------------------------------------------------------------------------
Inputs(s) ==
  (IF Len(s.bs) < MaxBuilders
   THEN {e \in [op : {"builder"}, f : Forms, name : Names] : e.name # "none" \/ Default(e.f)} ELSE {})
  \cup (IF Len(s.runs) < MaxRuns THEN [op : {"create"}, b : DOMAIN s.bs, d : Draws] ELSE {})

Init ==
  /\ st = InitSt([n |-> 0])
  /\ act = [in |-> [op |-> "new", cfg |-> [n |-> 0]], out |-> Out("")]
Next == \E e \in Inputs(st) : LET r == Do(st, e) IN st' = r.s /\ act' = [in |-> e, out |-> r.out]
View == st

--------------------------------------------------------------------------------
\* C22: 15 digits, and other draws give another id
Fifteen == \A d \in Draws : Len(Id(d)) = 15
Distinct == \A d, c \in Draws : d # c => Id(d) # Id(c)
Grows == [][\A k \in DOMAIN st.runs : st'.runs[k] = st.runs[k]]_<<st, act>>

EmitInit == TLCGet("level") > 1 \/ PrintT("@I" \o ToJson([a |-> act, t |-> st, o |-> ObsOf(st)]))
EmitNext == PrintT("@T" \o ToJson([s |-> st, a |-> act', t |-> st', o |-> ObsOf(st')]))
================================================================================
