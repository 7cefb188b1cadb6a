------------------------------ MODULE JustAsync ------------------------------
(* Asynchronous updaters of one cell of @just-web/states: each is begun, stays  *)
(* pending for any time while others begin, settle and write, and settles once. *)
(*                                                                              *)
(* A value is [c, i]: content c and identity i, where 0 is the well known value *)
(* of that content and the other numbers are objects made by in-place changes.  *)
(* "U" is undefined, "N" is null.                                               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Kinds, Contents, P, H, Behs, Plans, Ops

VARIABLES st, act

Pool(c) == [c |-> c, i |-> 0]
None == [k |-> "none"]

Pending(s) == {p \in P : s.pend[p].k # "none"}
Used(s) == {s.val.i} \cup {s.pend[p].r.i : p \in Pending(s)}
Tag(s) == CHOOSE n \in 1..19 : n \notin Used(s) /\ \A m \in 1..(n - 1) : m \in Used(s)
Drafts(s) == s.kind = "obj" /\ s.val.c \notin {"U", "N"}
InPlace(s, c) == IF s.val.c = c THEN s.val ELSE [c |-> c, i |-> Tag(s)]

Has(s, h) == \E k \in DOMAIN s.subs : s.subs[k].h = h
Drop(s, h) == [s EXCEPT !.subs = SelectSeq(@, LAMBDA x : x.h # h)]
Names(s) == [k \in DOMAIN s.subs |-> s.subs[k].h]

RECURSIVE Notify(_, _, _, _, _)
RECURSIVE Assign(_, _)
\* what a subscriber does when told: nothing, unsubscribe itself, or write
React(s, x, new) ==
  CASE x.b = "offSelf" -> [s |-> Drop(s, x.h), ev |-> <<>>]
    [] x.b = "setA"    -> IF new = Pool("a") THEN [s |-> s, ev |-> <<>>] ELSE Assign(s, Pool("a"))
    [] OTHER           -> [s |-> s, ev |-> <<>>]
Notify(s, snap, k, new, old) ==
  IF k > Len(snap) THEN [s |-> s, ev |-> <<>>]
  ELSE IF ~Has(s, snap[k].h) THEN Notify(s, snap, k + 1, new, old)
  ELSE LET r == React(s, snap[k], new)
           n == Notify(r.s, snap, k + 1, new, old)
       IN [s |-> n.s, ev |-> <<[h |-> snap[k].h, n |-> new.c, o |-> old.c, g |-> s.val.c]>> \o r.ev \o n.ev]
Assign(s, v) == IF s.val = v THEN [s |-> s, ev |-> <<>>] ELSE Notify([s EXCEPT !.val = v], s.subs, 1, v, s.val)
Commit(s, v, ret) == LET r == Assign(s, v) IN [s |-> r.s, out |-> [ev |-> r.ev, ret |-> ret]]
Quiet(s, ret) == [s |-> s, out |-> [ev |-> <<>>, ret |-> ret]]

\* what a begun updater leaves behind: its plan and the in-place result of its first part
Begin(s, e) ==
  [k |-> e.k, c |-> e.c,
   r |-> CASE e.k = "in" -> InPlace(s, "b") [] e.k = "void" -> s.val [] OTHER -> Pool("U")]
Settle(s, p) ==
  LET q == s.pend[p]
      s1 == [s EXCEPT !.pend[p] = None]
      v == CASE q.k = "ret" \/ q.k = "inRet" -> Pool(q.c)
             [] q.k = "nothing" -> Pool("U")
             [] OTHER -> q.r
  IN IF q.k \in {"rej", "inRej"} THEN Quiet(s1, "rejected") ELSE Commit(s1, v, v.c)

InitSt(cfg) == [kind |-> cfg.kind, val |-> Pool("a"), subs |-> <<>>, pend |-> [p \in P |-> None]]

Do(s, e) ==
  CASE e.op = "set"    -> Commit(s, Pool(e.c), e.c)
    [] e.op = "in"     -> LET v == InPlace(s, e.c) IN Commit(s, v, v.c)
    [] e.op = "reset"  -> Commit(s, Pool("a"), "-")
    [] e.op = "sub"    -> Quiet([s EXCEPT !.subs = Append(@, [h |-> e.h, b |-> e.b])], "-")
    [] e.op = "off"    -> Quiet(Drop(s, e.h), "-")
    [] e.op = "begin"  -> Quiet([s EXCEPT !.pend[e.p] = Begin(s, e)], s.val.c)
    [] e.op = "settle" -> Settle(s, e.p)
    [] e.op = "both"   ->                   \* p and then q, in the same turn
         LET r1 == Settle(s, e.p)
             r2 == Settle(r1.s, e.q)
         IN [s |-> r2.s, out |-> [ev |-> r1.out.ev \o r2.out.ev, ret |-> r1.out.ret, ret2 |-> r2.out.ret]]

ObsOf(s) == [get |-> s.val.c, early |-> <<>>]

--------------------------------------------------------------------------------
Inputs(s) ==
  {e \in
     [op : {"set"}, c : Contents \cup {"U", "N"}]
     \cup (IF Drafts(s) THEN [op : {"in"}, c : Contents] ELSE {})
     \cup [op : {"reset"}]
     \cup {[op |-> "sub", h |-> h, b |-> b] : h \in {x \in H : ~Has(s, x)},
           b \in {x \in Behs : x # "setA" \/ \A k \in DOMAIN s.subs : s.subs[k].b # "setA"}}
     \cup {[op |-> "off", h |-> h] : h \in {x \in H : Has(s, x)}}
     \cup {[op |-> "begin", p |-> p, k |-> k, c |-> c] :
             p \in P \ Pending(s), k \in {x \in Plans : Drafts(s) \/ x \notin {"in", "inRej", "inRet"}}, c \in Contents \cup {"N"}}
     \cup {[op |-> "settle", p |-> p] : p \in Pending(s)}
     \cup {[op |-> "both", p |-> p, q |-> q] : p \in Pending(s), q \in Pending(s)}
   : e.op \in Ops /\ (e.op # "both" \/ e.p # e.q) /\ (e.op # "begin" \/ e.c = "b" \/ e.k = "ret" \/ (e.k = "inRet" /\ e.c = "N"))}

Init == \E k \in Kinds :
  /\ st = InitSt([kind |-> k])
  /\ act = [in |-> [op |-> "new", cfg |-> [kind |-> k]], out |-> [ev |-> <<>>, ret |-> "-"]]
Next == \E e \in Inputs(st) : LET r == Do(st, e) IN st' = r.s /\ act' = [in |-> e, out |-> r.out]
View == st

--------------------------------------------------------------------------------
TypeOK == Cardinality(Pending(st)) <= Cardinality(P) /\ st.val.i \in 0..9
Ev == act'.out.ev
\* C04: beginning changes nothing
BeginQuiet == [][act'.in.op = "begin" => st'.val = st.val /\ st'.subs = st.subs /\ Ev = <<>>]_<<st, act>>
\* C04: settling tells each subscriber once, of the value being replaced then, and only of changes
SettleOnce ==
  [][(act'.in.op = "settle" /\ \A k \in DOMAIN st.subs : st.subs[k].b = "plain") =>
       /\ act'.in.p \notin Pending(st')
       /\ IF st'.val = st.val THEN Ev = <<>>
          ELSE /\ Len(Ev) = Len(st.subs)
               /\ \A k \in DOMAIN Ev : Ev[k].h = st.subs[k].h /\ Ev[k].o = st.val.c /\ Ev[k].n = st'.val.c]_<<st, act>>
\* C04: a rejection leaves the value alone
RejectKeeps == [][(act'.in.op = "settle" /\ act'.out.ret = "rejected") => st'.val = st.val /\ Ev = <<>>]_<<st, act>>
\* C04: two that settle in the same turn are as one after the other
BothLast ==
  [][act'.in.op = "both" =>
       /\ {act'.in.p, act'.in.q} \cap Pending(st') = {}
       /\ (\A k \in DOMAIN st.subs : st.subs[k].b = "plain") =>
            IF act'.out.ret2 # "rejected" THEN st'.val.c = act'.out.ret2
            ELSE IF act'.out.ret # "rejected" THEN st'.val.c = act'.out.ret ELSE st'.val = st.val]_<<st, act>>
\* C04: one updater settling does not settle or alter another
OthersStay ==
  [][act'.in.op = "settle" => \A p \in P \ {act'.in.p} : st'.pend[p] = st.pend[p]]_<<st, act>>

EmitInit == TLCGet("level") > 1 \/ PrintT("@I" \o ToJson([a |-> act, t |-> st, o |-> ObsOf(st)]))
EmitNext == PrintT("@T" \o ToJson([s |-> st, a |-> act', t |-> st', o |-> ObsOf(st')]))
================================================================================
