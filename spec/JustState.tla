------------------------------- MODULE JustState -------------------------------
(* One observable cell of @just-web/states (createState / createStore): its     *)
(* value, its ordered subscribers, synchronous writes, and notification, in     *)
(* which a subscriber may itself unsubscribe, subscribe or write.               *)
(*                                                                              *)
(* A value is [c, i]: c its content, i its identity: "p" the well known object  *)
(* (or primitive) of that content handed in by the user, "f" one made by an     *)
(* in-place update.  "U" is undefined.  Object.is on values is equality here.   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Kinds,     \* kinds of value explored: subset of {"obj", "prim", "fun"}
  Contents,  \* contents a writer may write
  Inits,     \* contents the cell may start with
  H,         \* subscribers: subset of {"h1", "h2", "h3"}
  Behs,      \* what subscribers may do when called
  Ops        \* operations explored

VARIABLES st, act

Pool(c) == [c |-> c, i |-> "p"]
Fresh(c) == [c |-> c, i |-> "f"]
\* what a subscriber writes that counts down
Below == [b |-> "a", c |-> "b", d |-> "c", e |-> "d", f |-> "e", g |-> "f", h |-> "g", i |-> "h", j |-> "i", k |-> "j", l |-> "k"]
NextOf(h) == CASE h = "h1" -> "h2" [] h = "h2" -> "h3" [] OTHER -> "h1"

Names(subs) == [k \in DOMAIN subs |-> subs[k].h]
Has(s, h) == \E k \in DOMAIN s.subs : s.subs[k].h = h
BehOf(s, h) == s.subs[CHOOSE k \in DOMAIN s.subs : s.subs[k].h = h].b
Drop(s, h) ==
  IF Has(s, h)
  THEN [s EXCEPT !.subs = SelectSeq(@, LAMBDA x : x.h # h), !.old = @ \cup {h}]
  ELSE s
Join(s, h, b) == IF Has(s, h) THEN s ELSE [s EXCEPT !.subs = Append(@, [h |-> h, b |-> b])]

RECURSIVE Notify(_, _, _, _, _)
RECURSIVE Assign(_, _)

\* what subscriber h does when told about `new`
React(s, h, new) ==
  LET b == BehOf(s, h) IN
  CASE b = "offSelf" -> [s |-> Drop(s, h), ev |-> <<>>]
    [] b = "offNext" -> [s |-> Drop(s, NextOf(h)), ev |-> <<>>]
    [] b = "onNext"  -> [s |-> Join(s, NextOf(h), "plain"), ev |-> <<>>]
    [] b = "setA"    -> IF new = Pool("a") THEN [s |-> s, ev |-> <<>>] ELSE Assign(s, Pool("a"))
    [] b = "resetIn" -> Assign(s, Pool(s.init))
    [] b = "again"   -> [s |-> Join(Drop(s, h), h, "again"), ev |-> <<>>]
    [] b = "down"    -> IF new.c \in DOMAIN Below THEN Assign(s, Pool(Below[new.c])) ELSE [s |-> s, ev |-> <<>>]
    [] OTHER         -> [s |-> s, ev |-> <<>>]

\* tell snap[k..] that the value went from old to new
Notify(s, snap, k, new, old) ==
  IF k > Len(snap) THEN [s |-> s, ev |-> <<>>]
  ELSE LET h == snap[k] IN
    IF ~Has(s, h) THEN Notify(s, snap, k + 1, new, old)
    ELSE LET r == React(s, h, new)
             n == Notify(r.s, snap, k + 1, new, old)
             e == [h |-> h, n |-> new, o |-> old, g |-> s.val]
         IN [s |-> n.s, ev |-> <<e>> \o r.ev \o n.ev]

\* make v the value and tell every subscriber; nothing happens when it already is
Assign(s, v) ==
  IF s.val = v THEN [s |-> s, ev |-> <<>>]
  ELSE Notify([s EXCEPT !.val = v], Names(s.subs), 1, v, s.val)

Wrote(s, v) ==
  LET r == Assign(s, v) IN [s |-> r.s, out |-> [ev |-> r.ev, ret |-> v.c]]
Quiet(s, ret) == [s |-> s, out |-> [ev |-> <<>>, ret |-> ret]]

\* the result of an in-place update to content c: immer keeps the identity if nothing changes
InPlace(s, c) == IF s.kind # "obj" \/ s.val.c = "U" \/ s.val.c = c THEN s.val ELSE Fresh(c)

InitSt(cfg) == [kind |-> cfg.kind, init |-> cfg.init, val |-> Pool(cfg.init), subs |-> <<>>, old |-> {}]

\* what an updater does before it returns
Inner(s, w) ==
  CASE w = "reset" -> Assign(s, Pool(s.init))
    [] w = "on"    -> [s |-> Join(s, "h1", "plain"), ev |-> <<>>]
    [] w = "off"   -> [s |-> Drop(s, "h1"), ev |-> <<>>]
    [] OTHER       -> Assign(s, Pool(w))

Do(s, e) ==
  CASE e.op = "set"     -> Wrote(s, Pool(e.c))             \* set(value)
    [] e.op = "same"    -> Wrote(s, s.val)                 \* set(get())
    [] e.op = "ret"     -> Wrote(s, Pool(e.c))             \* set(() => value)
    [] e.op = "in"      -> Wrote(s, InPlace(s, e.c))       \* set(draft => { change it })
    \* set(() => { set(other) or reset() or onChange(h1) or unsubscribe h1; return value })
    [] e.op = "nest"    -> LET i == Inner(s, e.w) r == Assign(i.s, Pool(e.c)) IN
                           [s |-> r.s, out |-> [ev |-> i.ev \o r.ev, ret |-> e.c]]
    [] e.op = "void"    -> Wrote(s, s.val)                 \* set(() => {})
    [] e.op = "nothing" -> Wrote(s, Pool("U"))             \* set(() => nothing)
    [] e.op = "throw"   -> Quiet(s, "throw")               \* set(draft => { change it; throw })
    [] e.op = "late"    -> Quiet(s, "revoked")             \* keep the draft, write to it afterwards
    [] e.op = "poke"    -> Quiet(s, "frozen")              \* get().x = …
    [] e.op = "reset"   -> LET r == Assign(s, Pool(s.init)) IN [s |-> r.s, out |-> [ev |-> r.ev, ret |-> "-"]]
    [] e.op = "sub"     -> Quiet(Join(s, e.h, e.b), "-")
    [] e.op = "dup"     -> Quiet(s, "-")                   \* subscribe again, and call what that returned
    [] e.op = "off"     -> Quiet(Drop(s, e.h), "-")
    [] e.op = "stale"   -> Quiet(s, "-")                   \* call every outdated unsubscribe of h

ObsOf(s) == [get |-> s.val, intact |-> TRUE]

--------------------------------------------------------------------------------
Writers == {"setA", "resetIn"}
Upd(s) == s.kind # "fun"
Drafts(s) == s.kind = "obj" /\ s.val.c # "U"
Inputs(s) ==
  {e \in
    [op : {"set"}, c : Contents]
    \cup (IF Upd(s) THEN [op : {"ret"}, c : Contents \ {"U"}] \cup [op : {"void", "nothing", "throw"}]
                         \cup [op : {"nest"}, w : {"a", "b", "reset", "on", "off"}, c : Contents \ {"U"}] ELSE {})
    \cup (IF Drafts(s) THEN [op : {"in"}, c : Contents \ {"U"}] \cup [op : {"late", "poke"}] ELSE {})
    \cup [op : {"same", "reset"}]
    \cup {[op |-> "sub", h |-> h, b |-> b] : h \in {x \in H : ~Has(s, x)},
          b \in {x \in Behs : x \notin Writers \/ ~\E k \in DOMAIN s.subs : s.subs[k].b \in Writers}}
    \cup {[op |-> o, h |-> h] : o \in {"dup", "off"}, h \in {x \in H : Has(s, x)}}
    \cup {[op |-> "stale", h |-> h] : h \in s.old}
   : e.op \in Ops}

Init == \E k \in Kinds, c \in Inits :
  /\ ~(k = "fun" /\ c = "U")
  /\ st = InitSt([kind |-> k, init |-> c])
  /\ act = [in |-> [op |-> "new", cfg |-> [kind |-> k, init |-> c]], out |-> [ev |-> <<>>, ret |-> "-"]]
Next == \E e \in Inputs(st) : LET r == Do(st, e) IN st' = r.s /\ act' = [in |-> e, out |-> r.out]
View == st

--------------------------------------------------------------------------------
TypeOK ==
  /\ st.val.c \in Contents \cup Inits \cup {"U", "a"}
  /\ st.val.i \in {"p", "f"}
  /\ \A j, k \in DOMAIN st.subs : st.subs[j].h = st.subs[k].h => j = k

Ev == act'.out.ev
Plain(s) == \A k \in DOMAIN s.subs : s.subs[k].b = "plain"

\* C01: every subscriber, once, in order, with the new and the replaced value; nobody if unchanged
ExactlyOnce ==
  [][(Plain(st) /\ act'.in.op # "nest") =>
       IF st'.val = st.val THEN Ev = <<>>
       ELSE /\ [k \in DOMAIN Ev |-> Ev[k].h] = Names(st.subs)
            /\ \A k \in DOMAIN Ev : Ev[k].n = st'.val /\ Ev[k].o = st.val /\ Ev[k].g = st'.val]_<<st, act>>
\* C01: deliveries to one subscriber form a chain of changes even when subscribers write
NoSelfChange == [][\A k \in DOMAIN Ev : Ev[k].n # Ev[k].o]_<<st, act>>
\* C01: what plain subscribers are told goes from the old to the new value without a gap
NoGap ==
  [][(Plain(st) /\ act'.in.op = "nest" /\ act'.in.w \in {"a", "b", "reset"}) =>
       \A h \in {st.subs[k].h : k \in DOMAIN st.subs} :
         LET mine == SelectSeq(Ev, LAMBDA x : x.h = h) IN
         IF mine = <<>> THEN st'.val = st.val
         ELSE /\ mine[1].o = st.val /\ mine[Len(mine)].n = st'.val
              /\ \A k \in 1..(Len(mine) - 1) : mine[k].n = mine[k + 1].o]_<<st, act>>
\* C02: only `off` and unsubscribing subscribers remove, and nobody else is affected
OnlyOwn ==
  [][(act'.in.op \in {"dup", "stale"}) => UNCHANGED st]_<<st, act>>
OffExact ==
  [][(act'.in.op = "off") => Names(st'.subs) = SelectSeq(Names(st.subs), LAMBDA h : h # act'.in.h)]_<<st, act>>
\* C02: whoever is still subscribed and was so before heard a change exactly once (no nested writes)
NoneSkipped ==
  [][(\A k \in DOMAIN st.subs : st.subs[k].b \notin Writers) /\ st'.val # st.val /\ act'.in.op # "nest" =>
       \A h \in H : (Has(st, h) /\ Has(st', h) /\ h \notin (st'.old \ st.old)) =>
          Cardinality({k \in DOMAIN Ev : Ev[k].h = h}) = 1]_<<st, act>>
\* C03: a throwing updater leaves everything as it was
ThrowKeeps == [][(act'.in.op \in {"throw", "late", "poke"}) => UNCHANGED st /\ Ev = <<>>]_<<st, act>>
\* C05: reset restores the initial value
ResetRestores == [][(act'.in.op = "reset" /\ Plain(st)) => st'.val = Pool(st.init)]_<<st, act>>

EmitInit == TLCGet("level") > 1 \/ PrintT("@I" \o ToJson([a |-> act, t |-> st, o |-> ObsOf(st)]))
EmitNext == PrintT("@T" \o ToJson([s |-> st, a |-> act', t |-> st', o |-> ObsOf(st')]))
================================================================================
