------------------------------- MODULE JustApp -------------------------------
(* App incubators (@just-web/app): a builder holds parts (gizmos, instances), an *)
(* initializer, and any number of creations, which may overlap: a part of kind   *)
(* "gate" holds its creation until it is released.                               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Kinds, Keys, Begins, MaxParts, MaxCreates, Ops

VARIABLES st, act

InitSt(cfg) == [parts |-> <<>>, init |-> "none", runs |-> <<>>]

\* a part puts its tag under its key
Tag(i) == "p" \o ToString(i)
Puts(kind) == kind \notin {"void", "fail", "failStart", "log", "nolog"}
Starts(kind) == kind \in {"start", "astart"}

\* a creation: it has built the parts before pos
NewRun(begin) ==
  [pos |-> 1, ctx |-> [x |-> "none", y |-> "none", log |-> "std"], begin |-> begin,
   closers |-> <<>>, at |-> "run"]

Built(ctx, p, i) ==
  CASE p.k = "log"   -> [ctx EXCEPT !.log = Tag(i)]
    [] p.k = "nolog" -> [ctx EXCEPT !.log = "no"]
    [] Puts(p.k)     -> IF p.x = "x" THEN [ctx EXCEPT !.x = Tag(i)] ELSE [ctx EXCEPT !.y = Tag(i)]
    [] OTHER         -> ctx

Ev(k, e, p, ctx) == [k |-> k, e |-> e, p |-> p, sees |-> ctx]
Stage(kind, k, what, r) ==
  CASE kind = "none" -> [r |-> r, ev |-> <<>>]
    [] kind = "fail" -> [r |-> [r EXCEPT !.at = "err"], ev |-> <<Ev(k, what, "", r.ctx), Ev(k, "rejected", what, r.ctx)>>]
    [] kind = "close" -> [r |-> [r EXCEPT !.closers = Append(@, what)], ev |-> <<Ev(k, what, "", r.ctx)>>]
    [] OTHER -> [r |-> r, ev |-> <<Ev(k, what, "", r.ctx)>>]

\* runs creation k until it waits or ends. lines: the logs that got a created line
RECURSIVE Run(_, _, _, _)
Run(s, k, r, ev) ==
  IF r.at # "run" THEN [r |-> r, ev |-> ev, lines |-> <<>>]
  ELSE IF r.pos <= Len(s.parts)
  THEN LET i == r.pos
           p == s.parts[i]
           seen == Append(ev, Ev(k, "create", Tag(i), r.ctx)) IN
       CASE p.k = "merge" -> Run(s, k, [r EXCEPT !.pos = i + 1, !.ctx = Built(@, p, i)], ev)
         [] p.k = "gate" -> [r |-> [r EXCEPT !.at = "wait"], ev |-> seen, lines |-> <<>>]
         [] p.k = "fail" ->
              [r |-> [r EXCEPT !.at = "err"], ev |-> Append(seen, Ev(k, "rejected", Tag(i), r.ctx)), lines |-> <<>>]
         [] p.k = "failStart" ->
              [r |-> [r EXCEPT !.at = "err"],
               ev |-> Append(Append(seen, Ev(k, "start", Tag(i), r.ctx)), Ev(k, "rejected", Tag(i), r.ctx)), lines |-> <<>>]
         [] Starts(p.k) ->
              Run(s, k, [r EXCEPT !.pos = i + 1, !.ctx = Built(@, p, i), !.closers = Append(@, Tag(i))],
                  Append(seen, Ev(k, "start", Tag(i), r.ctx)))
         [] OTHER -> Run(s, k, [r EXCEPT !.pos = i + 1, !.ctx = Built(@, p, i)], seen)
  ELSE LET a == Stage(s.init, k, "init", r)
           b == IF a.r.at = "err" THEN [r |-> a.r, ev |-> <<>>] ELSE Stage(r.begin, k, "begin", a.r)
           evs == ev \o a.ev \o b.ev IN
       IF b.r.at = "err" THEN [r |-> b.r, ev |-> evs, lines |-> <<>>]
       ELSE [r |-> [b.r EXCEPT !.at = "ok"], ev |-> Append(evs, Ev(k, "created", "", b.r.ctx)),
             \* the app's own log when it can log, else a standard one
             lines |-> <<[k |-> k, to |-> IF b.r.ctx.log = "no" THEN "std" ELSE b.r.ctx.log]>>]

Quiet == [ev |-> <<>>, lines |-> <<>>]
\* one creation
Create(s, begin) ==
  LET k == Len(s.runs) + 1
      q == Run(s, k, NewRun(begin), <<>>) IN
  [s |-> [s EXCEPT !.runs = Append(@, q.r)], out |-> [ev |-> q.ev, lines |-> q.lines]]
Do(s, e) ==
  CASE e.op = "with" -> [s |-> [s EXCEPT !.parts = Append(@, [k |-> e.k, x |-> e.x])], out |-> Quiet]
    [] e.op = "init" -> [s |-> [s EXCEPT !.init = e.k], out |-> Quiet]
    [] e.op = "create" ->
         Create(s, e.begin)
    \* two creations at the same time, step by step; what they do is listed one after the other
    [] e.op = "both" ->
         LET a == Create(s, e.begin)
             b == Create(a.s, e.begin) IN
         [s |-> b.s, out |-> [ev |-> a.out.ev \o b.out.ev, lines |-> a.out.lines \o b.out.lines]]
    [] e.op = "release" ->
         LET r == s.runs[e.n]
             i == r.pos
             q == Run(s, e.n, [r EXCEPT !.at = "run", !.pos = i + 1, !.ctx = Built(@, s.parts[i], i)], <<>>) IN
         [s |-> [s EXCEPT !.runs[e.n] = q.r], out |-> [ev |-> q.ev, lines |-> q.lines]]
    [] e.op = "cleanup" ->
         LET r == s.runs[e.n] IN
         [s |-> s,
          out |-> [ev |-> [i \in 1..Len(r.closers) |-> [k |-> e.n, e |-> "close", p |-> r.closers[i]]], lines |-> <<>>]]

\* what the finished apps hold
ObsOf(s) == [k \in DOMAIN s.runs |-> IF s.runs[k].at = "ok" THEN s.runs[k].ctx ELSE s.runs[k].at]

--------------------------------------------------------------------------------
Waiting(s) == {k \in DOMAIN s.runs : s.runs[k].at = "wait"}
Inputs(s) ==
  {e \in
     (IF Len(s.parts) < MaxParts
      THEN {[op |-> "with", k |-> k, x |-> x] : k \in Kinds, x \in Keys} ELSE {})
     \cup {[op |-> "init", k |-> k] : k \in Begins \ {"none", s.init}}
     \cup (IF Len(s.runs) < MaxCreates THEN {[op |-> "create", begin |-> b] : b \in Begins} ELSE {})
     \cup (IF Len(s.runs) + 1 < MaxCreates THEN {[op |-> "both", begin |-> b] : b \in Begins} ELSE {})
     \cup {[op |-> "release", n |-> k] : k \in Waiting(s)}
     \cup {[op |-> "cleanup", n |-> k] : k \in {j \in DOMAIN s.runs : s.runs[j].at = "ok"}}
   : /\ e.op \in Ops
     \* a builder is not changed while it is at work
     /\ e.op \in {"with", "init"} => Waiting(s) = {}
     /\ e.op = "with" => (e.k \notin {"void", "fail", "failStart", "log", "nolog"} \/ e.x = "x")}

Init ==
  /\ st = InitSt([n |-> 0])
  /\ act = [in |-> [op |-> "new", cfg |-> [n |-> 0]], out |-> Quiet]
Next == \E e \in Inputs(st) : LET r == Do(st, e) IN st' = r.s /\ act' = [in |-> e, out |-> r.out]
View == st

--------------------------------------------------------------------------------
Ends == act'.in.op \in {"create", "both", "release"}
Evs(o, e) == SelectSeq(o.ev, LAMBDA v : v.e = e)
\* C21: one created line per finished creation, none otherwise
OneLine == [][Len(act'.out.lines) = Len(Evs(act'.out, "created"))]_<<st, act>>
\* C21: a failing part rejects the creation
FailRejects ==
  [][\A k \in DOMAIN st'.runs :
       st'.runs[k].at = "ok" =>
         /\ \A i \in DOMAIN st'.parts : i < st'.runs[k].pos => st'.parts[i].k \notin {"fail", "failStart"}
         /\ st'.runs[k].begin # "fail"]_<<st, act>>
\* C21: the last part of a key wins
LastWins ==
  \A k \in DOMAIN st.runs :
    LET r == st.runs[k]
        of(x) == {i \in 1..(r.pos - 1) : Puts(st.parts[i].k) /\ st.parts[i].x = x}
        last(x) == IF of(x) = {} THEN "none" ELSE Tag(CHOOSE i \in of(x) : \A j \in of(x) : j <= i) IN
    r.ctx.x = last("x") /\ r.ctx.y = last("y")
\* C21: the parts of a creation are built in order, each once, and each start follows its part
InOrder ==
  [][\A k \in DOMAIN st'.runs :
       LET c == SelectSeq(act'.out.ev, LAMBDA v : v.k = k /\ v.e = "create") IN
       \A i, j \in DOMAIN c : i < j => c[i].p # c[j].p]_<<st, act>>
StartAfterPart ==
  [][\A i \in DOMAIN act'.out.ev :
       act'.out.ev[i].e = "start" => i > 1 /\ act'.out.ev[i - 1].e = "create" /\ act'.out.ev[i - 1].p = act'.out.ev[i].p]_<<st, act>>
\* C21: a creation does not change another
Apart ==
  [][\A k \in DOMAIN st.runs :
       (act'.in.op # "release" \/ act'.in.n # k) => st'.runs[k] = st.runs[k]]_<<st, act>>

EmitInit == TLCGet("level") > 1 \/ PrintT("@I" \o ToJson([a |-> act, t |-> st, o |-> ObsOf(st)]))
EmitNext == PrintT("@T" \o ToJson([s |-> st, a |-> act', t |-> st', o |-> ObsOf(st')]))
================================================================================
