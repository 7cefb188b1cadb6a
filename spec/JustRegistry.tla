----------------------------- MODULE JustRegistry -----------------------------
(* A registry of @just-web/states, an adder on it, and a readonly view of it.   *)
(* Its content is an ordered list of entries; string keys come before symbols   *)
(* whatever the order they were put in, and numbers before other strings.       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Strs, Syms,   \* string and symbol keys
  Vals,         \* values: subset of {"v1", "v2", "F" (falsy), "U" (undefined)}
  Inits,        \* initial content: subset of {"empty", "one"}
  Batches,      \* what add() is called with: sequences of [k, v]; v = "T" makes the handler throw
  Ops

VARIABLES st, act

Keys == Strs \cup Syms
Idx(xs, k) == {i \in DOMAIN xs : xs[i].k = k}
\* keys that are whole numbers are in numeric order, whenever they were put
Rank(k) == CASE k = "n1" -> 1 [] k = "n2" -> 2 [] k = "n3" -> 3 [] OTHER -> 4
Insert(xs, x) ==
  LET p == Cardinality({i \in DOMAIN xs : Rank(xs[i].k) <= Rank(x.k)}) IN
  SubSeq(xs, 1, p) \o <<x>> \o SubSeq(xs, p + 1, Len(xs))
PutIn(xs, k, v) ==
  IF Idx(xs, k) = {} THEN Insert(xs, [k |-> k, v |-> v])
  ELSE [i \in DOMAIN xs |-> IF xs[i].k = k THEN [k |-> k, v |-> v] ELSE xs[i]]
Content(s) == s.str \o s.sym
Present(s, k) == Idx(Content(s), k) # {}
Value(s, k) == LET c == Content(s) IN c[CHOOSE i \in DOMAIN c : c[i].k = k].v
Put(s, k, v) == IF k \in Strs THEN [s EXCEPT !.str = PutIn(@, k, v)] ELSE [s EXCEPT !.sym = PutIn(@, k, v)]
Del(s, k) == [s EXCEPT !.str = SelectSeq(@, LAMBDA x : x.k # k), !.sym = SelectSeq(@, LAMBDA x : x.k # k)]
InitC(i) == IF i = "one" THEN << [k |-> "k1", v |-> "v1"] >> ELSE <<>>

\* both subscribers (of the registry, then of its readonly view) hear of a change
Change(s, s1, ret) ==
  [s |-> s1,
   out |-> [ev |-> << [w |-> "own", n |-> Content(s1), o |-> Content(s)],
                      [w |-> "view", n |-> Content(s1), o |-> Content(s)] >>, ret |-> ret]]
Quiet(s, ret) == [s |-> s, out |-> [ev |-> <<>>, ret |-> ret]]
\* an in-place change: not one when the content stays the same
InPlace(s, s1) == IF Content(s1) = Content(s) THEN Quiet(s, "-") ELSE Change(s, [s1 EXCEPT !.orig = FALSE], "-")
Replace(s, s1) == Change(s, [s1 EXCEPT !.orig = FALSE], "-")

RECURSIVE AddAll(_, _, _)
\* how: "first" keeps the entry that is there, "last" overwrites it
AddOne(s, how, e) == IF how = "first" /\ Present(s, e.k) THEN s ELSE Put(s, e.k, e.v)
AddAll(s, how, es) == IF es = <<>> THEN s ELSE AddAll(AddOne(s, how, Head(es)), how, Tail(es))
\* writing an entry and writing it back is a change, like in one write
RECURSIVE Dirty(_, _, _)
Dirty(s, how, es) ==
  /\ es # <<>>
  /\ LET s1 == AddOne(s, how, Head(es)) IN Content(s1) # Content(s) \/ Dirty(s1, how, Tail(es))
Throws(es) == \E i \in DOMAIN es : es[i].v = "T"

InitSt(cfg) == [str |-> InitC(cfg.init), sym |-> <<>>, init |-> cfg.init, orig |-> TRUE]

Do(s, e) ==
  CASE e.op = "put"   -> InPlace(s, Put(s, e.k, e.v))
    [] e.op = "del"   -> InPlace(s, Del(s, e.k))
    [] e.op = "swap"  -> Replace(s, Put(Del(s, e.k), e.k, e.v))                  \* delete, then put
    [] e.op = "merge" -> Replace(s, Put(s, e.k, e.v))                            \* set(r => ({ ...r, [k]: v }))
    [] e.op = "only"  -> Replace(s, Put([s EXCEPT !.str = <<>>, !.sym = <<>>], e.k, e.v)) \* set({ [k]: v })
    [] e.op = "reset" -> IF s.orig THEN Quiet(s, "-")
                         ELSE Change(s, InitSt([init |-> s.init]), "-")
    [] e.op = "add"   -> IF Throws(e.es) THEN Quiet(s, "threw") 
                         ELSE IF Dirty(s, e.how, e.es) THEN Replace(s, AddAll(s, e.how, e.es)) ELSE Quiet(s, "-")

ObsOf(s) ==
  LET c == Content(s) IN
  [keys |-> [i \in DOMAIN c |-> c[i].k],
   values |-> [i \in DOMAIN c |-> c[i].v],
   content |-> c,
   size |-> Len(c),
   has |-> [k \in Keys |-> Present(s, k) /\ Value(s, k) # "U"],
   view |-> "same", extra |-> <<>>, alien |-> <<>>]

--------------------------------------------------------------------------------
Inputs(s) ==
  {e \in
    [op : {"put", "merge"}, k : Keys, v : Vals]
    \cup [op : {"only"}, k : Keys, v : {"v1"}]
    \cup [op : {"del"}, k : Keys]
    \cup [op : {"swap"}, k : Keys, v : {"v1"}]
    \cup [op : {"reset"}]
    \cup [op : {"add"}, how : {"first", "last"}, es : Batches]
   : e.op \in Ops}

Init == \E i \in Inits :
  /\ st = InitSt([init |-> i])
  /\ act = [in |-> [op |-> "new", cfg |-> [init |-> i]], out |-> [ev |-> <<>>, ret |-> "-"]]
Next == \E e \in Inputs(st) : LET r == Do(st, e) IN st' = r.s /\ act' = [in |-> e, out |-> r.out]
View == st

--------------------------------------------------------------------------------
Distinct(xs) == \A i, j \in DOMAIN xs : xs[i] = xs[j] => i = j
\* C06: the queries describe one content
Coherent ==
  LET o == ObsOf(st) IN
  /\ Distinct(o.keys) /\ Len(o.keys) = o.size /\ Len(o.values) = o.size
  /\ \A i, j \in DOMAIN o.keys : (o.keys[i] \in Syms /\ i < j) => o.keys[j] \in Syms
  /\ \A k \in Keys : o.has[k] <=> \E i \in DOMAIN o.keys : o.keys[i] = k /\ o.values[i] # "U"
Ev == act'.out.ev
\* C07: at most one notification per subscriber and only of a change; a throwing handler applies nothing
AtMostOnce ==
  [][/\ (Ev = <<>> => Content(st') = Content(st))
     /\ (Ev # <<>> => Len(Ev) = 2 /\ \A i \in 1..2 : Ev[i].n = Content(st') /\ Ev[i].o = Content(st))]_<<st, act>>
ThrowKeeps == [][act'.out.ret = "threw" => UNCHANGED st /\ Ev = <<>>]_<<st, act>>
\* C07: every entry of a batch is there afterwards, the first or the last of its key
AllApplied ==
  [][(act'.in.op = "add" /\ act'.out.ret = "-") =>
       \A i \in DOMAIN act'.in.es : Present(st', act'.in.es[i].k)]_<<st, act>>
\* C06: a key only comes and goes by what is done to it
OthersStay ==
  [][act'.in.op \in {"put", "del", "swap", "merge"} =>
       \A k \in Keys \ {act'.in.k} :
          /\ Present(st, k) <=> Present(st', k)
          /\ Present(st, k) => Value(st, k) = Value(st', k)]_<<st, act>>

EmitInit == TLCGet("level") > 1 \/ PrintT("@I" \o ToJson([a |-> act, t |-> st, o |-> ObsOf(st)]))
EmitNext == PrintT("@T" \o ToJson([s |-> st, a |-> act', t |-> st', o |-> ObsOf(st')]))

\* batches used by the configurations (a configuration file cannot write records)
E(k, v) == [k |-> k, v |-> v]
NoBatch == {}
SomeBatches ==
  { <<>>, <<E("k1", "v1")>>, <<E("k1", "v1"), E("k2", "v2")>>, <<E("k2", "v2"), E("k1", "F")>>,
    <<E("k1", "v1"), E("k1", "v2")>>, <<E("k2", "v1"), E("k1", "T"), E("k3", "v1")>>, <<E("k1", "T")>>,
    <<E("s1", "v1"), E("k3", "v2"), E("s1", "F")>>, <<E("k2", "v2"), E("k3", "T")>> }
================================================================================
