------------------------------ MODULE JustStorage ------------------------------
(* The storage test doubles of @just-web/browser/testing next to the page's storages: *)
(* two stub storages, the page's local and session storage, and a stub of one of      *)
(* these that stubs some members and forwards the others.                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Stubs, Keys, Vals, Kinds, Answers, Most, Ons, Ops

VARIABLES st, act

Members == {"getItem", "setItem", "removeItem", "clear", "key", "length"}
\* a stub of `kind` storage answers for the members in `stub`
Configs ==
  {c \in [kind : Kinds, stub : [Members -> Answers \cup {"no"}]] :
     Cardinality({m \in Members : c.stub[m] # "no"}) <= Most}
Empty == [k \in Keys |-> "none"]
Stores == Stubs \cup {"local", "session"}

InitSt(cfg) == [cfg |-> cfg, data |-> [x \in Stores |-> Empty]]

Present(f) == {k \in Keys : f[k] # "none"}
\* the store behind `on`
Behind(s, on) == IF on = "via" THEN s.cfg.kind ELSE on
Answer(s, on, m) == IF on = "via" THEN s.cfg.stub[m] ELSE "no"
Member(e) == CASE e.op = "get" -> "getItem" [] e.op = "set" -> "setItem" [] e.op = "remove" -> "removeItem"
               [] e.op = "clear" -> "clear" [] e.op = "key" -> "key" [] e.op = "length" -> "length"

Quiet == [op |-> "quiet"]
Do(s, e) ==
  LET x == Behind(s, e.on)
      f == s.data[x]
      To(g) == [s EXCEPT !.data[x] = g]
  IN
  CASE e.op \in {"get", "set", "remove", "clear", "key", "length"} /\ Answer(s, e.on, Member(e)) # "no" ->
         [s |-> s, out |-> [op |-> "stub", calls |-> IF e.op = "length" THEN 0 ELSE 1, args |-> TRUE, answer |-> Answer(s, e.on, Member(e))]]
    [] e.op = "get" -> [s |-> s, out |-> [op |-> "get", v |-> f[e.k]]]
    [] e.op = "set" -> [s |-> To([f EXCEPT ![e.k] = e.v]), out |-> Quiet]
    [] e.op = "remove" -> [s |-> To([f EXCEPT ![e.k] = "none"]), out |-> Quiet]
    [] e.op = "clear" -> [s |-> To(Empty), out |-> Quiet]
    [] e.op = "length" -> [s |-> s, out |-> [op |-> "length", n |-> Cardinality(Present(f))]]
    [] e.op = "key" -> [s |-> s, out |-> [op |-> "key", some |-> Present(f) # {}]]
    \* every key by its index, once, in the order of the last time unless keys were added or removed
    [] e.op = "enum" ->
         [s |-> s, out |-> [op |-> "enum", keys |-> [k \in Keys |-> IF k \in Present(f) THEN 1 ELSE 0], stable |-> TRUE, beyond |-> TRUE]]
    \* remove keys by their index until none is left
    [] e.op = "drain" -> [s |-> To(Empty), out |-> [op |-> "drain", steps |-> Cardinality(Present(f))]]

ObsOf(s) == [data |-> s.data, len |-> [x \in Stores |-> Cardinality(Present(s.data[x]))]]

--------------------------------------------------------------------------------
Allowed(s, e) ==
  (e.op \in {"enum", "drain"} /\ e.on = "via") =>
     \A m \in {"key", "length", "removeItem"} : s.cfg.stub[m] = "no"

Inputs(s) ==
  {e \in
     {[op |-> "get", on |-> o, k |-> k] : o \in Ons, k \in Keys}
     \cup {[op |-> "set", on |-> o, k |-> k, v |-> v] : o \in Ons, k \in Keys, v \in Vals}
     \cup {[op |-> "remove", on |-> o, k |-> k] : o \in Ons, k \in Keys}
     \cup {[op |-> "drain", on |-> o, end |-> d] : o \in Ons, d \in {"first", "last"}}
     \cup {[op |-> x, on |-> o] : o \in Ons, x \in {"clear", "key", "length", "enum"}}
   : e.op \in Ops /\ Allowed(s, e)}

Init ==
  \E cfg \in Configs :
    /\ st = InitSt(cfg)
    /\ act = [in |-> [op |-> "new", cfg |-> cfg], out |-> Quiet]
Next == \E e \in Inputs(st) : LET r == Do(st, e) IN st' = r.s /\ act' = [in |-> e, out |-> r.out]
View == st

--------------------------------------------------------------------------------
\* C25: a storage changes only through itself or a stub that forwards to it
OnlyItself == [][\A x \in Stores : st'.data[x] # st.data[x] => Behind(st, act'.in.on) = x]_<<st, act>>
\* C25: other keys are left alone by set and remove
OtherKeys ==
  [][act'.in.op \in {"set", "remove"} =>
       \A x \in Stores : \A k \in Keys \ {act'.in.k} : st'.data[x][k] = st.data[x][k]]_<<st, act>>
\* C25: a stubbed member never reaches the storage
StubbedStops == [][act'.out.op = "stub" => st' = st]_<<st, act>>
\* C25: what is set is what is read
ReadsLast == [][(act'.in.op = "set" /\ act'.out.op # "stub") => st'.data[Behind(st, act'.in.on)][act'.in.k] = act'.in.v]_<<st, act>>

EmitInit == TLCGet("level") > 1 \/ PrintT("@I" \o ToJson([a |-> act, t |-> st, o |-> ObsOf(st)]))
EmitNext == PrintT("@T" \o ToJson([s |-> st, a |-> act', t |-> st', o |-> ObsOf(st')]))
================================================================================
