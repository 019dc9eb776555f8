------------------------------- MODULE BuzzVM -------------------------------
(* The Buzz machine: one step of every instruction, over raw bytecode.     *)
(*                                                                         *)
(* Configuration c: c.code (bytes), c.strs (program strings), c.names      *)
(* (names of the globals that are watched), c.nf (how many native           *)
(* functions there are).                                                   *)
(* State s: pc, op (position of the last instruction begun), st, er,       *)
(*   ss (operand stacks, outermost first), ls (frames <<swarm?, locals>>), *)
(*   g (globals: value or <<"none">> per watched name), o (objects: tables *)
(*   <<"t", set of <<key, value>>>> and closures <<"c",nat,ref,name,act>>, *)
(*   numbered in order of creation), l (what rec() was given in this step),*)
(*   wild (the step's outcome is left open).                               *)
EXTENDS Instr
Ready == 1
Done == 2
Failed == 3
eInstr == 1
eStack == 2
eLnum == 3
ePc == 4
eFlist == 5
eType == 6
eString == 7
Fail(s, e) == [s EXCEPT !.st = Failed, !.er = e]
Open(s) == [s EXCEPT !.wild = TRUE]
Top(s) == s.ss[Len(s.ss)]
Depth(s) == Len(Top(s))
At(s, i) == Top(s)[Depth(s) + 1 - i]
SetTop(s, q) == [s EXCEPT !.ss[Len(s.ss)] = q]
Drop(s, n) == SetTop(s, SubSeq(Top(s), 1, Depth(s) - n))
Push(s, v) == SetTop(s, Append(Top(s), v))
Repl(s, n, v) == SetTop(s, Append(SubSeq(Top(s), 1, Depth(s) - n), v))
Frame(s) == s.ls[Len(s.ls)]
Locals(s) == Frame(s)[2]
SetLocals(s, q) == [s EXCEPT !.ls[Len(s.ls)] = <<Frame(s)[1], q>>]
Front(q) == SubSeq(q, 1, Len(q) - 1)
GIndex(c, n) == IF \E i \in 1..Len(c.names) : c.names[i] = n THEN CHOOSE i \in 1..Len(c.names) : c.names[i] = n ELSE 0
NewObj(s, x) == [s EXCEPT !.o = Append(s.o, x)]
TLookup(es, k) == IF \E e \in es : e[1] = k THEN (CHOOSE e \in es : e[1] = k)[2] ELSE Nil
TStore(es, k, v) == {e \in es : e[1] # k} \cup (IF v = Nil THEN {} ELSE {<<k, v>>})
LogVal(v) == IF v[1] \in {"t", "c"} THEN <<v[1], 0>> ELSE v
\* ---- return with value v to the calling frame
Return(s, v) ==
  LET s1 == [s EXCEPT !.ss = Front(@), !.ls = Front(@)]
  IN IF Depth(s1) < 1 THEN Fail(s1, eStack)
     ELSE IF At(s1, 1)[1] # "i" THEN Fail(s1, eType)
     ELSE Repl([s1 EXCEPT !.op = s.pc, !.pc = At(s1, 1)[2]], 1, v)
\* ---- the functions written in C that the host registers
Native(s, name) ==
  LET n == Len(Locals(s)) - 1
  IN CASE name = "rec" -> Return([s EXCEPT !.l = Append(@, [i \in 1..n |-> LogVal(Locals(s)[i + 1])])], Nil)
       [] name = "cid" -> IF n # 1 THEN Fail(s, eLnum) ELSE Return(s, Locals(s)[2])
       [] name = "cargs" -> Return(s, I(n))
       [] name = "cself" -> Return(s, Locals(s)[1])
       [] OTHER -> Open(s)
\* ---- call: argument count on top, then arguments, closure, self
Call(c, s0, sw) ==
  IF Depth(s0) < 1 THEN Fail(s0, eStack)
  ELSE IF At(s0, 1)[1] # "i" THEN (IF Wild(At(s0, 1)) THEN Open(s0) ELSE Fail(s0, eType))
  ELSE
  LET n == At(s0, 1)[2]
      s == Drop(s0, 1)
  IN IF n < 0 \/ n >= Depth(s) - 1 THEN Fail(s, eStack)
     ELSE IF At(s, n + 1)[1] # "c" THEN Fail(s, eType)
     ELSE
     LET f == s.o[At(s, n + 1)[2]]
         args == SubSeq(Top(s), Depth(s) - n + 1, Depth(s))
         s1 == Repl(s, n + 2, I(s.pc))
         s2 == [s1 EXCEPT !.ls = Append(@, <<sw, f[5] \o args>>), !.ss = Append(@, <<>>)]
     IN IF f[2] = 0 /\ f[4] = "oob" THEN Fail(s, eFlist)
        ELSE IF f[2] = 1 /\ (f[3] < 0 \/ f[3] >= Size(c)) THEN Fail(s, ePc)
        ELSE IF f[2] = 1 THEN [s2 EXCEPT !.op = s.pc, !.pc = f[3]]
        ELSE Native(s2, f[4])
\* ---- instructions that act, then move on
Binary(s, v) == IF v = TypeError THEN Fail(s, eType) ELSE IF v = <<"?", "any">> THEN Open(s) ELSE Repl(s, 2, v)
ArithOps == {"add", "sub", "mul", "div", "mod", "pow"}
BitOps == {"band", "bor", "lshift", "rshift"}
CmpOps == {"eq", "neq", "gt", "gte", "lt", "lte"}
Acting == ArithOps \cup BitOps \cup CmpOps \cup {"unm", "land", "lor", "lnot", "bnot", "pusht"}
Act(s, op) ==
  CASE op \in ArithOps -> IF Depth(s) < 2 THEN Fail(s, eStack) ELSE Binary(s, Arith(op, At(s, 2), At(s, 1)))
    [] op \in BitOps -> IF Depth(s) < 2 THEN Fail(s, eStack) ELSE Binary(s, Bitwise(op, At(s, 2), At(s, 1)))
    [] op \in CmpOps -> IF Depth(s) < 2 THEN Fail(s, eStack) ELSE Binary(s, Compare(op, At(s, 2), At(s, 1)))
    [] op \in {"land", "lor"} -> IF Depth(s) < 2 THEN Fail(s, eStack)
         ELSE IF Wild(At(s, 1)) \/ Wild(At(s, 2)) THEN Repl(s, 2, AnyB)
         ELSE Repl(s, 2, Truth(IF op = "land" THEN ~False(At(s, 1)) /\ ~False(At(s, 2)) ELSE ~False(At(s, 1)) \/ ~False(At(s, 2))))
    [] op = "lnot" -> IF Depth(s) < 1 THEN Fail(s, eStack) ELSE Repl(s, 1, IF Wild(At(s, 1)) THEN AnyB ELSE Truth(False(At(s, 1))))
    [] op = "unm" -> IF Depth(s) < 1 THEN Fail(s, eStack) ELSE LET v == Neg(At(s, 1)) IN IF v = TypeError THEN Fail(s, eType) ELSE Repl(s, 1, v)
    [] op = "bnot" -> IF Depth(s) < 1 THEN Fail(s, eStack) ELSE IF ~IsInt(At(s, 1)) THEN Fail(s, eType)
         ELSE Repl(s, 1, IF Wild(At(s, 1)) THEN AnyI ELSE BNot(At(s, 1)[2]))
    [] op = "pusht" -> Push(NewObj(s, <<"t", {}>>), <<"t", Len(s.o) + 1>>)
\* ---- instructions without an argument that act after moving on
After(c, s, op) ==
  CASE op = "nop" -> s
    [] op = "pushnil" -> Push(s, Nil)
    [] op = "dup" -> IF Depth(s) < 1 THEN Fail(s, eStack) ELSE Push(s, At(s, 1))
    [] op = "pop" -> IF Depth(s) < 1 THEN Fail(s, eStack) ELSE Drop(s, 1)
    [] op = "gload" -> IF Depth(s) < 1 THEN Fail(s, eStack) ELSE IF At(s, 1)[1] # "s" THEN Fail(s, eType)
         ELSE LET i == GIndex(c, At(s, 1)[2]) IN IF i = 0 THEN Open(s) ELSE Repl(s, 1, IF s.g[i] = <<"none">> THEN Nil ELSE s.g[i])
    [] op = "gstore" -> IF Depth(s) < 2 THEN Fail(s, eStack) ELSE IF At(s, 2)[1] # "s" THEN Fail(s, eType)
         ELSE LET i == GIndex(c, At(s, 2)[2]) IN IF i = 0 THEN Open(s) ELSE Drop([s EXCEPT !.g[i] = At(s, 1)], 2)
    [] op = "tget" -> IF Depth(s) < 2 THEN Fail(s, eStack) ELSE IF At(s, 2)[1] # "t" THEN Fail(s, eType)
         ELSE IF ~KeyOk(At(s, 1)) THEN (IF Wild(At(s, 1)) THEN Open(s) ELSE Fail(s, eType))
         ELSE Repl(s, 2, TLookup(s.o[At(s, 2)[2]][2], Key(At(s, 1))))
    [] op = "tput" -> IF Depth(s) < 3 THEN Fail(s, eStack) ELSE IF At(s, 3)[1] # "t" THEN Fail(s, eType)
         ELSE IF ~KeyOk(At(s, 2)) THEN (IF Wild(At(s, 2)) THEN Open(s) ELSE Fail(s, eType))
         ELSE LET t == At(s, 3)
                  v == At(s, 1)
                  f == s.o[v[2]]
                  \* a function stored in a table becomes a method of it
                  m == <<"c", f[2], f[3], f[4], <<t>> \o Tail(f[5])>>
                  s1 == IF v[1] = "c" THEN NewObj(s, m) ELSE s
                  v1 == IF v[1] = "c" THEN <<"c", Len(s.o) + 1>> ELSE v
              IN Drop([s1 EXCEPT !.o[t[2]] = <<"t", TStore(s1.o[t[2]][2], Key(At(s, 2)), v1)>>], 3)
    [] op = "callc" -> Call(c, s, 0)
    [] op = "calls" -> Call(c, s, 1)
\* ---- instructions with an argument a (b: as a float)
WithArg(c, s, op, a, b) ==
  CASE op = "pushi" -> Push(s, I(a))
    [] op = "pushf" -> Push(s, b)
    [] op = "pushs" -> IF a < 0 \/ a > 65535 THEN Open(s)
         ELSE IF a < Len(c.strs) THEN Push(s, S(c.strs[a + 1]))
         ELSE IF a > 60000 THEN Fail(s, eString) ELSE Open(s)
    [] op = "pushcn" -> Push(NewObj(s, <<"c", 1, a, "", <<Nil>>>>), <<"c", Len(s.o) + 1>>)
    [] op = "pushcc" -> IF a < 0 \/ a >= c.nf THEN Push(NewObj(s, <<"c", 0, 0, "oob", <<Nil>>>>), <<"c", Len(s.o) + 1>>) ELSE Open(s)
    [] op = "pushl" -> Push(NewObj(s, <<"c", 1, a, "", Locals(s)>>), <<"c", Len(s.o) + 1>>)
    [] op = "lload" -> IF a < 0 \/ a >= Len(Locals(s)) THEN Fail(s, eLnum) ELSE Push(s, Locals(s)[a + 1])
    [] op = "lstore" -> IF Depth(s) < 1 THEN Fail(s, eStack)
         ELSE IF a < 0 \/ a > Len(Locals(s)) THEN Fail(s, eLnum)
         ELSE Drop(SetLocals(s, IF a = Len(Locals(s)) THEN Append(Locals(s), At(s, 1)) ELSE [Locals(s) EXCEPT ![a + 1] = At(s, 1)]), 1)
    [] op = "lremove" -> IF a < 0 \/ a > Len(Locals(s)) - 1 THEN Fail(s, eLnum) ELSE SetLocals(s, SubSeq(Locals(s), 1, Len(Locals(s)) - a))
    [] op = "jump" -> IF a < 0 \/ a >= Size(c) THEN Fail(s, ePc) ELSE [s EXCEPT !.pc = a]
    [] op \in {"jumpz", "jumpnz"} ->
         IF Depth(s) < 1 THEN Fail(s, eStack)
         ELSE IF Wild(At(s, 1)) THEN Open(s)
         ELSE IF False(At(s, 1)) = (op = "jumpz") THEN (IF a < 0 \/ a >= Size(c) THEN Fail(s, ePc) ELSE [Drop(s, 1) EXCEPT !.pc = a])
         ELSE Drop(s, 1)
\* ---- one step
Step(c, s0) ==
  IF s0.st # Ready THEN [s0 EXCEPT !.l = <<>>]
  ELSE
  LET s == [s0 EXCEPT !.l = <<>>]
      op == Op(c, s.pc)
      mv == [s EXCEPT !.op = s.pc, !.pc = s.pc + 1]
      last == s.pc + 1 >= Size(c)
  IN CASE op = "unknown" -> Fail(s, eInstr)
       [] op = "done" -> [s EXCEPT !.st = Done]
       [] op \in {"ret0", "ret1"} ->
            IF Len(s.ss) < 2 THEN Fail(s, eStack)
            ELSE IF op = "ret1" /\ Depth(s) < 1 THEN Fail(s, eStack)
            ELSE LET r == Return(s, IF op = "ret1" THEN At(s, 1) ELSE Nil)
                 IN IF r.st = Ready /\ (r.pc < 0 \/ r.pc >= Size(c)) THEN Fail(r, ePc) ELSE r
       [] op \in Acting ->
            LET r == Act(s, op)
            IN IF last THEN (IF r.st = Failed THEN Open(r) ELSE Fail(mv, ePc)) ELSE [r EXCEPT !.op = s.pc, !.pc = s.pc + 1]
       [] \E i \in FirstWithArg..Len(Plain) : Plain[i] = op ->
            IF last \/ s.pc + 5 >= Size(c) THEN Fail(mv, ePc)
            ELSE WithArg(c, [mv EXCEPT !.pc = s.pc + 5], op, Arg(c, s.pc + 1), ArgF(c, s.pc + 1))
       [] OTHER -> IF last THEN Fail(mv, ePc) ELSE After(c, mv, op)
\* ---- running to the end of a call, or to the end of the prologue
RECURSIVE Run(_, _, _, _)
Run(c, s, d, k) == IF s.st # Ready \/ s.wild \/ Len(s.ss) <= d THEN s
                   ELSE IF k = 0 THEN Open(s)
                   ELSE LET n == Step(c, s) IN Run(c, [n EXCEPT !.l = s.l \o n.l], d, k - 1)
ClosureCall(c, s, n) ==                  \* closure under n arguments on the stack
  LET p == Depth(s) - n
      q == Append(SubSeq(Top(s), 1, p - 1), Nil) \o SubSeq(Top(s), p, Depth(s))
      s1 == Call(c, Push(SetTop(s, q), I(n)), 0)
  IN IF p < 1 THEN Open(s) ELSE Run(c, s1, Len(s.ss), 400)
FunctionCall(c, s0, name, args) ==
  IF s0.st \notin {Ready, Done} THEN [s0 EXCEPT !.l = <<>>]
  ELSE LET s == [s0 EXCEPT !.st = Ready, !.l = <<>>]
           i == GIndex(c, name)
           f == s.g[i]
       IN IF i = 0 THEN Open(s)
          ELSE IF f[1] # "c" THEN Fail(s, eType)
          ELSE ClosureCall(c, SetTop(s, Append(Top(s), f) \o args), Len(args))
RECURSIVE Prologue(_, _, _)
Prologue(c, s, k) == IF s.st # Ready \/ s.wild \/ Op(c, s.pc) = "nop" THEN Step(c, s)
                     ELSE IF k = 0 THEN Open(s) ELSE Prologue(c, Step(c, s), k - 1)
RECURSIVE StrLen(_, _)
StrLen(c, p) == IF Byte(c, p) = 0 THEN p + 1 ELSE StrLen(c, p + 1)
RECURSIVE CodeStart(_, _, _)
CodeStart(c, p, n) == IF n = 0 THEN p ELSE CodeStart(c, StrLen(c, p), n - 1)
Start(c) == LET p == CodeStart(c, 2, Byte(c, 0) + 256 * Byte(c, 1))
            IN [pc |-> p, op |-> p, st |-> Ready, er |-> 0, ss |-> <<<<>>>>, ls |-> <<<<0, <<Nil>>>>>>,
                g |-> [i \in 1..Len(c.names) |-> <<"none">>], o |-> <<>>, l |-> <<>>, wild |-> FALSE]
=============================================================================
