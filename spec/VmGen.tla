------------------------------- MODULE VmGen --------------------------------
(* Every sequence of instructions from a small alphabet, run by BuzzVM:    *)
(* checks the machine's invariants and prints one history per distinct     *)
(* machine state, to be replayed on the real machine.                      *)
EXTENDS BuzzVM, Json, IOUtils
Conf == JsonDeserialize(IOEnv.GEN)
Alphabet == Conf.alphabet                \* byte sequences
VARIABLES s, code, h
vars == <<s, code, h>>
Pad3 == <<1, 0, 0>>                      \* done nop nop
C == [code |-> code \o Pad3, strs |-> Conf.strs, names |-> Conf.names, nf |-> 100000]
C0 == [code |-> Conf.code \o Pad3, strs |-> Conf.strs, names |-> Conf.names, nf |-> 100000]
\* run until the end of what has been chosen so far
RECURSIVE RunTo(_, _, _, _)
RunTo(c, x, end, k) == IF x.st # Ready \/ x.wild \/ (x.pc = end /\ Len(x.ss) = 1) \/ k = 0 THEN x ELSE RunTo(c, Step(c, x), end, k - 1)
Init == /\ s = Prologue(C0, Start(C0), 50)
        /\ code = Conf.code /\ h = <<>>
Choose(i) == LET c2 == code \o Alphabet[i]
                 cc == [code |-> c2 \o Pad3, strs |-> Conf.strs, names |-> Conf.names, nf |-> 100000]
                 x == RunTo(cc, s, Len(c2), 60)
             IN /\ code' = c2 /\ h' = Append(h, i) /\ s' = [x EXCEPT !.l = <<>>]
                /\ PrintT(<<"H", ToString(h')>>)
Next == Len(h) < Conf.depth /\ s.st = Ready /\ ~s.wild /\ \E i \in 1..Len(Alphabet) : Choose(i)
Spec == Init /\ [][Next]_vars
View == <<[s EXCEPT !.pc = 0, !.op = 0], Len(h)>>
Vals(x) == UNION {{x.ss[i][j] : j \in 1..Len(x.ss[i])} : i \in 1..Len(x.ss)} \cup UNION {{x.ls[i][2][j] : j \in 1..Len(x.ls[i][2])} : i \in 1..Len(x.ls)}
\* frames and stacks go together, callers wait on their return address, nothing dangles, calls are balanced
Frames == /\ s.st # Failed => Len(s.ss) = Len(s.ls)
          /\ s.st = Ready /\ ~s.wild => Len(s.ss) = 1 /\ s.pc = Len(code)
          /\ \A i \in 1..Len(s.ss) - 1 : Len(s.ss[i]) > 0 /\ s.ss[i][Len(s.ss[i])][1] = "i"
NoDangling == \A v \in Vals(s) : v[1] \in {"t", "c"} => v[2] <= Len(s.o) /\ s.o[v[2]][1] = v[1]
NamedErrors == (s.st = Failed) = (s.er # 0)
=============================================================================
