----------------------------- MODULE JustHandlers -----------------------------
(* The command handlers of one app (@just-web/commands): which function runs    *)
(* for an id, with which arguments, and what an unknown id does.                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Ids, Funs, ArgLists, Ops

VARIABLES st, act

(* f1, f2 return something of their own, fT throws, fI invokes the next id with the
   same arguments and returns what that does, fR first registers f1 for its own id,
   fC invokes the next id twice, whatever comes of it, and returns something of its own.
   How often handlers invoke others is bounded by the fuel of the invocation, which is
   large enough for a handler to be invoked while it is running. *)
NextId(i) == CASE i = "i1" -> "i2" [] i = "i2" -> "i3" [] OTHER -> "i1"

Known(s, i) == \E k \in DOMAIN s.reg : s.reg[k].i = i
FunOf(s, i) == s.reg[CHOOSE k \in DOMAIN s.reg : s.reg[k].i = i].f
Register(s, i, f) ==
  [s EXCEPT !.reg =
     IF Known(s, i) THEN [k \in DOMAIN @ |-> IF @[k].i = i THEN [i |-> i, f |-> f] ELSE @[k]]
     ELSE Append(@, [i |-> i, f |-> f])]

\* result: s, the calls made in order, what comes back, and how many errors are logged
RECURSIVE Invoke(_, _, _, _)
Invoke(s, i, args, fuel) ==
  IF ~Known(s, i) THEN [s |-> s, calls |-> <<>>, ret |-> "undefined", errors |-> 1, fuel |-> fuel]
  ELSE LET f == FunOf(s, i)
           c == << [f |-> f, args |-> args] >> IN
    CASE f = "fT" -> [s |-> s, calls |-> c, ret |-> "threw", errors |-> 0, fuel |-> fuel]
      [] f = "fR" -> [s |-> Register(s, i, "f1"), calls |-> c, ret |-> "fR", errors |-> 0, fuel |-> fuel]
      [] f = "fI" -> IF fuel = 0 THEN [s |-> s, calls |-> c, ret |-> "stopped", errors |-> 0, fuel |-> 0]
                     ELSE LET r == Invoke(s, NextId(i), args, fuel - 1) IN
                          [r EXCEPT !.calls = c \o @]
      [] f = "fC" -> IF fuel = 0 THEN [s |-> s, calls |-> c, ret |-> "fC", errors |-> 0, fuel |-> 0]
                     ELSE LET r1 == Invoke(s, NextId(i), args, fuel - 1) IN
                          IF r1.fuel = 0 THEN [r1 EXCEPT !.calls = c \o @, !.ret = "fC"]
                          ELSE LET r2 == Invoke(r1.s, NextId(i), args, r1.fuel - 1) IN
                               [r2 EXCEPT !.calls = c \o r1.calls \o @, !.ret = "fC", !.errors = r1.errors + @]
      [] OTHER -> [s |-> s, calls |-> c, ret |-> f, errors |-> 0, fuel |-> fuel]

Fuel == 5
InitSt(cfg) == [reg |-> [k \in DOMAIN cfg.given |-> [i |-> cfg.given[k], f |-> "f1"]]]

Do(s, e) ==
  CASE e.op = "register" -> [s |-> Register(s, e.i, e.f), out |-> [calls |-> <<>>, ret |-> "-", errors |-> 0]]
    [] e.op = "invoke" -> LET r == Invoke(s, e.i, e.args, Fuel) IN
                          [s |-> r.s, out |-> [calls |-> r.calls, ret |-> r.ret, errors |-> r.errors]]

ObsOf(s) == [keys |-> [k \in DOMAIN s.reg |-> s.reg[k].i], has |-> [i \in Ids |-> Known(s, i)], alien |-> <<>>]

--------------------------------------------------------------------------------
Inputs(s) == [op : {"register"}, i : Ids, f : Funs] \cup [op : {"invoke"}, i : Ids, args : ArgLists]

Givens == { <<>>, <<"i1">>, <<"i2", "i1">> }
SomeArgs == { <<>>, <<"a">>, <<"a", "U", "b">> }
Init == \E g \in Givens :
  /\ st = InitSt([given |-> g])
  /\ act = [in |-> [op |-> "new", cfg |-> [given |-> g]], out |-> [calls |-> <<>>, ret |-> "-", errors |-> 0]]
Next == \E e \in Inputs(st) : LET r == Do(st, e) IN st' = r.s /\ act' = [in |-> e, out |-> r.out]
View == st

--------------------------------------------------------------------------------
OnePerId == \A j, k \in DOMAIN st.reg : st.reg[j].i = st.reg[k].i => j = k
Inv == act'.in.op = "invoke"
Out == act'.out
\* C08: the handler registered last for the id runs first, once, with the arguments
Latest ==
  [][(Inv /\ Known(st, act'.in.i)) =>
       /\ Out.calls[1] = [f |-> FunOf(st, act'.in.i), args |-> act'.in.args]
       /\ FunOf(st, act'.in.i) \notin {"fI", "fC"} => Len(Out.calls) = 1 /\ Out.errors = 0]_<<st, act>>
\* C08: an unknown id calls nothing and logs one error
Unknown == [][(Inv /\ ~Known(st, act'.in.i)) => Out.calls = <<>> /\ Out.errors = 1 /\ Out.ret = "undefined" /\ UNCHANGED st]_<<st, act>>
\* C08: registering one id leaves the others alone
OthersStay ==
  [][act'.in.op = "register" =>
       \A i \in Ids \ {act'.in.i} : Known(st', i) = Known(st, i) /\ (Known(st, i) => FunOf(st', i) = FunOf(st, i))]_<<st, act>>

EmitInit == TLCGet("level") > 1 \/ PrintT("@I" \o ToJson([a |-> act, t |-> st, o |-> ObsOf(st)]))
EmitNext == PrintT("@T" \o ToJson([s |-> st, a |-> act', t |-> st', o |-> ObsOf(st')]))
================================================================================
