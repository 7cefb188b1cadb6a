------------------------------- MODULE JustList -------------------------------
(* A store of a list with push and unshift adders (@just-web/states), a record  *)
(* store with an adder that counts, and a readonly view of each.                *)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Items, MaxLen, Batches, Ops

VARIABLES st, act

In(x, xs) == \E i \in DOMAIN xs : xs[i] = x
\* a follower, subscribed last, pushes z when it is told of a list with y and without z
RECURSIVE Change(_, _, _)
Change(s, xs, ret) ==
  LET t == [s EXCEPT !.xs = xs, !.orig = FALSE]
      ev == << [w |-> "own", n |-> xs, o |-> s.xs], [w |-> "view", n |-> xs, o |-> s.xs] >> IN
  IF s.fol /\ In("y", xs) /\ ~In("z", xs)
  THEN LET r == Change(t, Append(xs, "z"), ret) IN [r EXCEPT !.out.ev = ev \o @]
  ELSE [s |-> t, out |-> [ev |-> ev, ret |-> ret]]
Quiet(s, ret) == [s |-> s, out |-> [ev |-> <<>>, ret |-> ret]]
Throws(es) == \E i \in DOMAIN es : es[i] = "T"
Rev(xs) == [i \in DOMAIN xs |-> xs[Len(xs) + 1 - i]]

InitC(i) == IF i = "one" THEN <<"x">> ELSE <<>>
InitSt(cfg) == [xs |-> InitC(cfg.init), init |-> cfg.init, orig |-> TRUE, fol |-> cfg.fol]

Added(xs, how, es) ==
  CASE how = "push" -> xs \o es
    [] how = "unshift" -> Rev(es) \o xs
    [] how = "once" -> LET RECURSIVE A(_, _)
                           A(ys, zs) == IF zs = <<>> THEN ys
                                        ELSE A(IF \E i \in DOMAIN ys : ys[i] = Head(zs) THEN ys ELSE Append(ys, Head(zs)), Tail(zs))
                       IN A(xs, es)

Do(s, e) ==
  CASE e.op = "add"   -> IF Throws(e.es) THEN Quiet(s, "threw")
                         ELSE LET xs == Added(s.xs, e.how, e.es) IN
                              IF xs = s.xs THEN Quiet(s, "-") ELSE Change(s, xs, "-")
    [] e.op = "set"   -> Change(s, e.es, "-")
    [] e.op = "clear" -> IF s.xs = <<>> THEN Quiet(s, "-") ELSE Change(s, <<>>, "-")   \* in place
    [] e.op = "reset" -> IF s.orig THEN Quiet(s, "-")
                         ELSE LET r == Change(s, InitC(s.init), "-") IN [r EXCEPT !.s.orig = TRUE]

ObsOf(s) == [get |-> s.xs, view |-> s.xs, extra |-> <<>>]

Inputs(s) ==
  {e \in [op : {"add"}, how : {"push", "unshift", "once"}, es : {b \in Batches : Len(b) + Len(s.xs) <= MaxLen}]
         \cup [op : {"set"}, es : {<<"x", "y">>}]
         \cup [op : {"clear", "reset"}] : e.op \in Ops}

Init == \E i \in {"empty", "one"}, f \in BOOLEAN :
  /\ st = InitSt([init |-> i, fol |-> f])
  /\ act = [in |-> [op |-> "new", cfg |-> [init |-> i, fol |-> f]], out |-> [ev |-> <<>>, ret |-> "-"]]
Next == \E e \in Inputs(st) : LET r == Do(st, e) IN st' = r.s /\ act' = [in |-> e, out |-> r.out]
View == st

TypeOK == Len(st.xs) <= MaxLen + 3
Ev == act'.out.ev
\* C07: one change per add, told once, none when nothing changed or the handler throws
OneChange ==
  [][/\ (Ev = <<>> => st'.xs = st.xs)
     /\ (Ev # <<>> => /\ (Len(Ev) = 2 \/ (st.fol /\ Len(Ev) = 4))
                      /\ \A i \in 1..2 : Ev[i].o = st.xs /\ Ev[Len(Ev) - 2 + i].n = st'.xs
                      /\ (Len(Ev) = 4 => \A i \in 1..2 : Ev[i].n = Ev[i + 2].o))]_<<st, act>>
Followed == [][(st.fol /\ In("y", st'.xs) /\ ~In("y", st.xs)) => In("z", st'.xs)]_<<st, act>>
ThrowKeeps == [][act'.out.ret = "threw" => UNCHANGED st /\ Ev = <<>>]_<<st, act>>
\* C07: push appends in order; unshift prepends each in turn
InOrder ==
  [][(act'.in.op = "add" /\ act'.out.ret = "-") =>
       CASE act'.in.how = "push" -> SubSeq(st'.xs, 1, Len(st.xs)) = st.xs
         [] act'.in.how = "unshift" -> SubSeq(st'.xs, Len(act'.in.es) + 1, Len(act'.in.es) + Len(st.xs)) = st.xs
         [] OTHER -> SubSeq(st'.xs, 1, Len(st.xs)) = st.xs]_<<st, act>>

EmitInit == TLCGet("level") > 1 \/ PrintT("@I" \o ToJson([a |-> act, t |-> st, o |-> ObsOf(st)]))
EmitNext == PrintT("@T" \o ToJson([s |-> st, a |-> act', t |-> st', o |-> ObsOf(st')]))

SomeBatches == { <<>>, <<"x">>, <<"y">>, <<"x", "y">>, <<"y", "x", "z">>, <<"x", "x">>, <<"x", "T">>, <<"T", "y">> }
================================================================================
