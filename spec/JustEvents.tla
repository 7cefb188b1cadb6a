----------------------------- MODULE JustEvents -----------------------------
(* The event emitter of apps (@just-web/events): listeners in subscription      *)
(* order, once, removal, listeners that fail, subscribe, unsubscribe or emit.   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Apps, Evs, Lists, Behs, Args, Ops

VARIABLES st, act

\* listener l of event e: [l, b, once]
InitSt(cfg) == [emitter |-> cfg.emitter, on |-> [a \in Apps |-> [e \in Evs |-> <<>>]]]
Has(s, a, e, l) == \E i \in DOMAIN s.on[a][e] : s.on[a][e][i].l = l
Drop(s, a, e, l) == [s EXCEPT !.on[a][e] = SelectSeq(@, LAMBDA x : x.l # l)]
Add(s, a, e, x) == [s EXCEPT !.on[a][e] = Append(@, x)]
Next1(l) == CASE l = "l1" -> "l2" [] l = "l2" -> "l3" [] OTHER -> "l1"

R(s, calls, errs) == [s |-> s, calls |-> calls, errs |-> errs]
RECURSIVE Emit(_, _, _, _, _), Walk(_, _, _, _, _, _, _, _)
\* everyone listening when the emit begins is called, up to one that fails
Emit(s, a, e, arg, fuel) == Walk(s, a, e, arg, s.on[a][e], <<>>, <<>>, fuel)
Walk(s, a, e, arg, q, calls, errs, fuel) ==
  IF q = <<>> THEN R(s, calls, errs)
  ELSE LET x == Head(q)
           s1 == IF x.once THEN Drop(s, a, e, x.l) ELSE s
           c1 == Append(calls, [l |-> x.l, e |-> e, arg |-> arg])
           other == Next1(x.l)
       IN CASE x.b = "throw" -> R(s1, c1, Append(errs, x.l))
            [] x.b = "off"   -> Walk(Drop(s1, a, e, x.l), a, e, arg, Tail(q), c1, errs, fuel)
            [] x.b = "drop"  -> Walk(Drop(s1, a, e, other), a, e, arg, Tail(q), c1, errs, fuel)
            [] x.b = "add"   -> Walk(IF Has(s1, a, e, other) \/ other \notin Lists THEN s1
                                     ELSE Add(s1, a, e, [l |-> other, b |-> "plain", once |-> FALSE]),
                                     a, e, arg, Tail(q), c1, errs, fuel)
            [] x.b = "emit" /\ fuel > 0 ->
                 LET r == Emit(s1, a, "e2", arg, fuel - 1) IN
                 Walk(r.s, a, e, arg, Tail(q), c1 \o r.calls, errs \o r.errs, 0)
            [] OTHER -> Walk(s1, a, e, arg, Tail(q), c1, errs, fuel)

Out(calls, errs, ret) == [calls |-> calls, errs |-> errs, ret |-> ret]
Quiet == Out(<<>>, <<>>, "-")
Do(s, e) ==
  CASE e.op \in {"on", "once"} -> [s |-> Add(s, e.a, e.e, [l |-> e.l, b |-> e.b, once |-> e.op = "once"]), out |-> Quiet]
    [] e.op = "off"  -> [s |-> Drop(s, e.a, e.e, e.l), out |-> Quiet]
    [] e.op = "clear" -> [s |-> [s EXCEPT !.on[e.a][e.e] = <<>>], out |-> Quiet]
    [] e.op = "emit" -> LET r == Emit(s, e.a, e.e, e.arg, 1) IN [s |-> r.s, out |-> Out(r.calls, r.errs, "-")]

ObsOf(s) == [n |-> [a \in Apps |-> [e \in Evs |-> Len(s.on[a][e])]]]

--------------------------------------------------------------------------------
Inputs(s) ==
  {x \in
     [op : {"on", "once"}, a : Apps, e : Evs, l : Lists, b : Behs]
     \cup [op : {"off"}, a : Apps, e : Evs, l : Lists]
     \cup [op : {"clear"}, a : Apps, e : Evs]
     \cup [op : {"emit"}, a : Apps, e : Evs, arg : Args]
   : /\ x.op \in Ops
     /\ x.op \in {"on", "once"} => ~Has(s, x.a, x.e, x.l) /\ (x.b = "emit" => x.e = "e1")
     /\ x.op = "off" => Has(s, x.a, x.e, x.l)}

Init == \E k \in {"default", "custom"} :
  /\ st = InitSt([emitter |-> k])
  /\ act = [in |-> [op |-> "new", cfg |-> [emitter |-> k]], out |-> Quiet]
Next == \E e \in Inputs(st) : LET r == Do(st, e) IN st' = r.s /\ act' = [in |-> e, out |-> r.out]
View == st

--------------------------------------------------------------------------------
OnceEach == \A a \in Apps : \A e \in Evs : \A i, j \in DOMAIN st.on[a][e] :
  st.on[a][e][i].l = st.on[a][e][j].l => i = j
\* C20: emit never throws
NeverThrows == [][act'.out.ret = "-"]_<<st, act>>
\* C20: up to a listener that fails, each is called once, in order, with the arguments emitted
InOrder ==
  [][act'.in.op = "emit" =>
       LET q == st.on[act'.in.a][act'.in.e]
           mine == SelectSeq(act'.out.calls, LAMBDA c : c.e = act'.in.e)
           bad == {i \in DOMAIN q : q[i].b = "throw"}
           n == IF bad = {} THEN Len(q) ELSE CHOOSE i \in bad : \A j \in bad : i <= j
       IN act'.in.e # "e2" =>
          /\ Len(mine) = n
          /\ \A i \in 1..n : mine[i].l = q[i].l /\ mine[i].arg = act'.in.arg]_<<st, act>>
\* C20: a failing listener is logged, and stays subscribed
Logged ==
  [][act'.in.op = "emit" =>
       Len(act'.out.errs) = Cardinality({i \in DOMAIN act'.out.calls :
          \E x \in {st.on[act'.in.a][act'.out.calls[i].e][j] : j \in DOMAIN st.on[act'.in.a][act'.out.calls[i].e]} :
             x.l = act'.out.calls[i].l /\ x.b = "throw"})]_<<st, act>>
FailuresStay ==
  [][act'.in.op = "emit" =>
       \A e \in Evs : \A i \in DOMAIN st.on[act'.in.a][e] :
         LET x == st.on[act'.in.a][e][i] IN
         (x.b = "throw" /\ ~x.once /\ \A f \in Evs : \A j \in DOMAIN st.on[act'.in.a][f] : st.on[act'.in.a][f][j].b # "drop")
           => Has(st', act'.in.a, e, x.l)]_<<st, act>>
AppsApart == [][\A a \in Apps \ {act'.in.a} : st'.on[a] = st.on[a]]_<<st, act>>

EmitInit == TLCGet("level") > 1 \/ PrintT("@I" \o ToJson([a |-> act, t |-> st, o |-> ObsOf(st)]))
EmitNext == PrintT("@T" \o ToJson([s |-> st, a |-> act', t |-> st', o |-> ObsOf(st')]))
================================================================================
