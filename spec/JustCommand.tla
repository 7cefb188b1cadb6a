------------------------------ MODULE JustCommand ------------------------------
(* The life of command objects (@just-web/commands command()): before and after *)
(* they are connected to apps, and the title of a formatted command.            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Decl,   \* how each command is declared: function from commands to
                  \* "id" (a plain id), "info" (no key), "key", "mac"
          Kbd,    \* function from apps to whether they have a keyboard
          Funs, ArgLists, Ops

VARIABLES st, act

Cmds == DOMAIN Decl
Apps == DOMAIN Kbd
None == "none"

InitSt(cfg) ==
  [own |-> [c \in Cmds |-> IF c \in {cfg.given[k] : k \in DOMAIN cfg.given} THEN "f1" ELSE None],
   ctx |-> [c \in Cmds |-> None],
   reg |-> [a \in Apps |-> [c \in Cmds |-> None]],
   con |-> [a \in Apps |-> {}],
   kbc |-> [a \in Apps |-> {}]]

\* page: errors logged outside of any app
Out(calls, ret, errors) == [calls |-> calls, ret |-> ret, errors |-> errors, page |-> 0]
NoErr == [a \in Apps |-> 0]
None3 == Out(<<>>, "-", NoErr)
\* contributing a command twice to an app is reported there
Dup(s, c, a) == IF Decl[c] # "id" /\ s.own[c] # None /\ c \in s.con[a] THEN [NoErr EXCEPT ![a] = 1] ELSE NoErr
Add(x, y) == [a \in Apps |-> x[a] + y[a]]
Connect(s, c, a, f) ==
  LET h == IF f # None THEN f ELSE s.own[c]
      s1 == [s EXCEPT !.ctx[c] = a, !.own[c] = h]
  IN IF h = None THEN s1
     ELSE LET s2 == [s1 EXCEPT !.reg[a][c] = h] IN
          IF Decl[c] = "id" THEN s2
          ELSE LET s3 == [s2 EXCEPT !.con[a] = @ \cup {c}] IN
               IF Kbd[a] /\ Decl[c] \in {"key", "mac"} THEN [s3 EXCEPT !.kbc[a] = @ \cup {c}] ELSE s3

NextC(c) == CASE c = "c1" /\ "c2" \in Cmds -> "c2" [] c = "c2" /\ "c3" \in Cmds -> "c3" [] OTHER -> "c1"
\* a handler may throw, connect its command to A or B, define its handler anew,
\* register another one, or call the next command
RECURSIVE Call(_, _, _, _)
Ran(s, c, f, args, fuel) ==
  LET o == Out(<< [f |-> f, args |-> args] >>, IF f = "fT" THEN "threw" ELSE f, NoErr) IN
  CASE f = "fA" -> [s |-> Connect(s, c, "A", None), out |-> [o EXCEPT !.errors = Dup(s, c, "A")]]
    [] f = "fB" -> [s |-> Connect(s, c, "B", None), out |-> [o EXCEPT !.errors = Dup(s, c, "B")]]
    [] f = "fD" -> [s |-> [s EXCEPT !.own[c] = "f2"], out |-> o]
    [] f = "fR" -> [s |-> [s EXCEPT !.reg["A"][c] = "f1"], out |-> o]
    [] f = "fN" /\ fuel > 0 ->
         LET r == Call(s, NextC(c), args, fuel - 1) IN
         [s |-> r.s, out |-> [r.out EXCEPT !.calls = o.calls \o @]]
    [] OTHER -> [s |-> s, out |-> o]
Call(s, c, args, fuel) ==
  IF s.ctx[c] # None
  THEN LET f == s.reg[s.ctx[c]][c] IN
       IF f = None THEN [s |-> s, out |-> Out(<<>>, "undefined", [NoErr EXCEPT ![s.ctx[c]] = 1])] ELSE Ran(s, c, f, args, fuel)
  ELSE IF s.own[c] # None THEN Ran(s, c, s.own[c], args, fuel) ELSE [s |-> s, out |-> [Out(<<>>, "undefined", NoErr) EXCEPT !.page = 1]]

\* an id is its segments between dots, a segment is its words
Flat(segs) == LET RECURSIVE F(_)
                  F(k) == IF k > Len(segs) THEN <<>> ELSE segs[k] \o F(k + 1)
              IN F(1)
Title(e) == IF e.own # None THEN [own |-> TRUE, words |-> <<e.own>>]
            ELSE [own |-> FALSE, words |-> Flat(IF Len(e.segs) > 1 THEN Tail(e.segs) ELSE e.segs)]

Do(s, e) ==
  CASE e.op = "call"     -> Call(s, e.c, e.args, 2)
    [] e.op = "define"   -> [s |-> [s EXCEPT !.own[e.c] = e.f], out |-> None3]
    [] e.op = "connect"  -> [s |-> Connect(s, e.c, e.a, e.f), out |-> None3]
    [] e.op = "register" -> [s |-> [s EXCEPT !.reg[e.a][e.c] = e.f], out |-> None3]
    [] e.op = "format"   -> [s |-> s, out |-> Title(e)]

ObsOf(s) ==
  [has |-> [a \in Apps |-> [c \in Cmds |-> s.reg[a][c] # None]],
   con |-> [a \in Apps |-> [c \in Cmds |-> c \in s.con[a]]],
   kbc |-> [a \in Apps |-> [c \in Cmds |-> c \in s.kbc[a]]],
   named |-> [c \in Cmds |-> TRUE]]

--------------------------------------------------------------------------------
SomeArgs == { <<>>, <<"a", "U", "b">> }
Titles == { << <<"show">> >>, << <<"show", "palette">> >>, << <<"ns">>, <<"show", "palette">> >>,
            << <<"ns", "x">>, <<"a">>, <<"b", "c">> >>, << <<"ns">>, <<"close">> >> }
Inputs(s) ==
  {e \in
    [op : {"call"}, c : Cmds, args : ArgLists]
    \cup [op : {"define"}, c : Cmds, f : Funs]
    \cup [op : {"connect"}, c : Cmds, a : Apps, f : Funs \cup {None}]
    \cup [op : {"register"}, c : Cmds, a : Apps, f : Funs]
    \cup [op : {"format"}, own : {None, "t"}, segs : Titles]
   : e.op \in Ops}
Givens == {S \in SUBSET {"c1", "c2"} : TRUE}
SeqOf(S) == IF S = {} THEN <<>> ELSE IF S = {"c1"} THEN <<"c1">> ELSE IF S = {"c2"} THEN <<"c2">> ELSE <<"c1", "c2">>
Init == \E g \in Givens :
  /\ st = InitSt([given |-> SeqOf(g \cap Cmds)])
  /\ act = [in |-> [op |-> "new", cfg |-> [given |-> SeqOf(g \cap Cmds)]], out |-> None3]
Next == \E e \in Inputs(st) : LET r == Do(st, e) IN st' = r.s /\ act' = [in |-> e, out |-> r.out]
View == st

--------------------------------------------------------------------------------
\* C10: only a contributed command has a key binding, only where there is a keyboard; a plain id has neither
Contributed ==
  \A a \in Apps : /\ st.kbc[a] \subseteq st.con[a] /\ (st.kbc[a] # {} => Kbd[a])
                  /\ \A c \in st.con[a] : Decl[c] # "id" /\ st.reg[a][c] # None
\* C10: a call runs what the last connected app has, else its own
Dispatch ==
  [][act'.in.op = "call" =>
       LET c == act'.in.c
           f == IF st.ctx[c] = None THEN st.own[c] ELSE st.reg[st.ctx[c]][c]
       IN IF f = None THEN act'.out.calls = <<>> /\ act'.out.page = (IF st.ctx[c] = None THEN 1 ELSE 0)
          ELSE /\ act'.out.calls[1] = [f |-> f, args |-> act'.in.args]
               /\ f # "fN" => Len(act'.out.calls) = 1]_<<st, act>>
\* C10: a command does not touch another one
OthersStay ==
  [][act'.in.op \in {"define", "connect", "register"} =>
       \A c \in Cmds \ {act'.in.c} :
         /\ st'.own[c] = st.own[c] /\ st'.ctx[c] = st.ctx[c]
         /\ \A a \in Apps : st'.reg[a][c] = st.reg[a][c]]_<<st, act>>

EmitInit == TLCGet("level") > 1 \/ PrintT("@I" \o ToJson([a |-> act, t |-> st, o |-> ObsOf(st)]))
EmitNext == PrintT("@T" \o ToJson([s |-> st, a |-> act', t |-> st', o |-> ObsOf(st')]))

DeclKeyId == [c1 |-> "key", c2 |-> "id"]
DeclWide == [c1 |-> "key", c2 |-> "id", c3 |-> "mac", c4 |-> "info", c5 |-> "id", c6 |-> "key", c7 |-> "info"]
KbdWide == [A |-> TRUE, B |-> FALSE, D |-> TRUE, E |-> FALSE, F |-> TRUE]
DeclMacInfo == [c1 |-> "mac", c2 |-> "info"]
DeclKey == [c1 |-> "key"]
Kbd2 == [A |-> TRUE, B |-> FALSE]
Kbd3 == [A |-> TRUE, B |-> FALSE, D |-> TRUE]
================================================================================
