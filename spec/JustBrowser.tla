----------------------------- MODULE JustBrowser -----------------------------
(* Uncaught errors of a page and the browser apps on it (@just-web/browser):    *)
(* an app listens from the moment its browser part is being created, while the  *)
(* rest of it is still building, until it is cleaned up.                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Apps, Errs, H, Behs, MaxErrs, Ops

VARIABLES st, act

\* order: the apps now listening, the longest first
InitSt(cfg) ==
  [phase |-> [a \in Apps |-> "no"], pd |-> [a \in Apps |-> FALSE],
   errs |-> [a \in Apps |-> <<>>], subs |-> [a \in Apps |-> <<>>], order |-> <<>>]

Live(s) == {s.order[i] : i \in DOMAIN s.order}
Without(q, x) == SelectSeq(q, LAMBDA y : y # x)

Out(ev, logs, prevented) == [ev |-> ev, logs |-> logs, prevented |-> prevented]
Quiet == Out(<<>>, [a \in Apps |-> 0], FALSE)

\* an error event: to each app that listens, and there to each subscriber, which may
\* unsubscribe or raise another one (xr) while this one is being handled
HasSub(s, a, h) == \E k \in DOMAIN s.subs[a] : s.subs[a][k].h = h
DropSub(s, a, h) == [s EXCEPT !.subs[a] = SelectSeq(@, LAMBDA y : y.h # h)]
More(l, a) == [l EXCEPT ![a] = @ + 1]
RECURSIVE ToApps(_, _, _, _)
RECURSIVE ToSubs(_, _, _, _, _, _)
ToSubs(s, a, snap, k, new, old) ==
  IF k > Len(snap) THEN [s |-> s, ev |-> <<>>, logs |-> [x \in Apps |-> 0]]
  ELSE IF ~HasSub(s, a, snap[k].h) THEN ToSubs(s, a, snap, k + 1, new, old)
  ELSE LET r == CASE snap[k].b = "offSelf" -> [s |-> DropSub(s, a, snap[k].h), ev |-> <<>>, logs |-> [x \in Apps |-> 0]]
                  [] snap[k].b = "raise" /\ new[Len(new)] # "xr" -> ToApps(s, s.order, 1, "xr")
                  [] OTHER -> [s |-> s, ev |-> <<>>, logs |-> [x \in Apps |-> 0]]
           n == ToSubs(r.s, a, snap, k + 1, new, old)
       IN [s |-> n.s, ev |-> <<[a |-> a, h |-> snap[k].h, n |-> new, o |-> old]>> \o r.ev \o n.ev,
           logs |-> [x \in Apps |-> r.logs[x] + n.logs[x]]]
ToApps(s, order, i, x) ==
  IF i > Len(order) THEN [s |-> s, ev |-> <<>>, logs |-> [y \in Apps |-> 0]]
  ELSE LET a == order[i]
           r == ToSubs([s EXCEPT !.errs[a] = Append(@, x)], a, s.subs[a], 1, Append(s.errs[a], x), s.errs[a])
           n == ToApps(r.s, order, i + 1, x)
       IN [s |-> n.s, ev |-> r.ev \o n.ev, logs |-> More([y \in Apps |-> r.logs[y] + n.logs[y]], a)]

Do(s, e) ==
  CASE e.op = "start" ->
         [s |-> [s EXCEPT !.phase[e.a] = "building", !.pd[e.a] = e.pd, !.errs[e.a] = <<>>, !.subs[e.a] = <<>>,
                          !.order = Append(@, e.a)],
          out |-> Quiet]
    [] e.op = "finish" -> [s |-> [s EXCEPT !.phase[e.a] = "up"], out |-> Quiet]
    [] e.op = "clean"  -> [s |-> [s EXCEPT !.phase[e.a] = "down", !.order = Without(@, e.a)], out |-> Quiet]
    [] e.op = "sub"    -> [s |-> [s EXCEPT !.subs[e.a] = Append(@, [h |-> e.h, b |-> e.b])], out |-> Quiet]
    [] e.op = "off"    -> [s |-> DropSub(s, e.a, e.h), out |-> Quiet]
    [] e.op = "tamper" -> [s |-> s, out |-> Quiet]
    [] e.op = "error"  ->
         LET r == ToApps(s, s.order, 1, e.x) IN
         [s |-> r.s, out |-> Out(r.ev, r.logs, \E a \in Live(s) : s.pd[a])]

Built(s, a) == s.phase[a] \in {"up", "down"}
ObsOf(s) == [a \in Apps |-> IF Built(s, a) THEN s.errs[a] ELSE <<>>]

--------------------------------------------------------------------------------
Count(s) == LET m == {Len(s.errs[a]) : a \in Apps} IN CHOOSE x \in m : \A y \in m : y <= x
Inputs(s) ==
  {e \in
     {[op |-> "start", a |-> a, pd |-> p] : a \in {x \in Apps : s.phase[x] \in {"no", "down"}}, p \in BOOLEAN}
     \cup {[op |-> "finish", a |-> a] : a \in {x \in Apps : s.phase[x] = "building"}}
     \cup {[op |-> "clean", a |-> a] : a \in {x \in Apps : s.phase[x] = "up"}}
     \cup {[op |-> "tamper", a |-> a] : a \in {x \in Apps : Built(s, x)}}
     \cup {[op |-> "sub", a |-> a, h |-> h, b |-> b] : a \in {x \in Apps : Built(s, x)}, h \in H, b \in Behs}
     \cup {[op |-> "off", a |-> a, h |-> h] : a \in {x \in Apps : Built(s, x)}, h \in H}
     \cup [op : {"error"}, x : Errs]
   : /\ e.op \in Ops
     /\ e.op = "error" => Count(s) < MaxErrs
     /\ e.op = "sub" => \A k \in DOMAIN s.subs[e.a] : s.subs[e.a][k].h # e.h
     /\ e.op = "off" => \E k \in DOMAIN s.subs[e.a] : s.subs[e.a][k].h = e.h}

Init ==
  /\ st = InitSt([n |-> 0])
  /\ act = [in |-> [op |-> "new", cfg |-> [n |-> 0]], out |-> Quiet]
Next == \E e \in Inputs(st) : LET r == Do(st, e) IN st' = r.s /\ act' = [in |-> e, out |-> r.out]
View == st

--------------------------------------------------------------------------------
Listening == \A a \in Apps : (a \in Live(st)) <=> st.phase[a] \in {"building", "up"}
OnceEach == Len(st.order) = Cardinality(Live(st))
\* C17: recorded errors are never dropped or altered
Kept ==
  [][\A a \in Apps : act'.in.op # "start" \/ act'.in.a # a =>
       /\ Len(st'.errs[a]) >= Len(st.errs[a])
       /\ SubSeq(st'.errs[a], 1, Len(st.errs[a])) = st.errs[a]]_<<st, act>>
\* C17: an error is recorded once by each app that is listening, and by no other
OncePerError ==
  [][\A a \in Apps :
       IF act'.in.op = "error" /\ a \in Live(st)
       THEN LET new == SubSeq(st'.errs[a], Len(st.errs[a]) + 1, Len(st'.errs[a])) IN
            /\ Cardinality({k \in DOMAIN new : new[k] = act'.in.x}) = 1
            /\ \A k \in DOMAIN new : new[k] \in {act'.in.x, "xr"}
            /\ Len(new) = act'.out.logs[a]
            /\ (\A b \in Apps : \A k \in DOMAIN st.subs[b] : st.subs[b][k].b # "raise") => Len(new) = 1
       ELSE (act'.in.op = "start" /\ act'.in.a = a) \/ (st'.errs[a] = st.errs[a] /\ act'.out.logs[a] = 0)]_<<st, act>>
\* C17: nothing after clean up
CleanedQuiet == [][\A a \in Apps : (st.phase[a] = "down" /\ st'.phase[a] = "down") => st'.errs[a] = st.errs[a]]_<<st, act>>

EmitInit == TLCGet("level") > 1 \/ PrintT("@I" \o ToJson([a |-> act, t |-> st, o |-> ObsOf(st)]))
EmitNext == PrintT("@T" \o ToJson([s |-> st, a |-> act', t |-> st', o |-> ObsOf(st')]))
================================================================================
