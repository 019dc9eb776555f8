------------------------------- MODULE DbgGen -------------------------------
(* Every history of setting and removing breakpoints and continuing, over  *)
(* one program: checks that a debugged run is the plain run, interrupted   *)
(* exactly at the breakpoints, and prints one history per distinct state.  *)
EXTENDS Debug, Json, IOUtils
Conf == JsonDeserialize(IOEnv.GEN)
C == [code |-> Conf.code, strs |-> Conf.strs, names |-> Conf.names, nf |-> 100000]
S0 == Prologue(C, Start(C), 50)
RECURSIVE Path_(_, _)
Path_(s, k) == IF s.st # Ready \/ k = 0 THEN <<s>> ELSE <<s>> \o Path_(Step(C, s), k - 1)
ASSUME TLCSet(7, Path_(S0, 200))
Path == TLCGet(7)                      \* the plain run, state by state
VARIABLES s, b, h, from, at
vars == <<s, b, h, from, at>>
\* where in the plain run the debugged one is: at, and where it was before the last operation: from
Bare(x) == [x EXCEPT !.st = Ready, !.l = <<>>]
Where(x, i) == {j \in i..Len(Path) : Bare(Path[j]) = Bare(x) /\ (Path[j].st = x.st \/ (x.st = Stopped /\ Path[j].st = Ready))}
Least(q) == CHOOSE j \in q : \A k \in q : j <= k
Init == s = S0 /\ b = <<>> /\ h = <<>> /\ from = 1 /\ at = 1
Do(i) ==
  LET a == Conf.alphabet[i]
      s2 == IF a[1] = "cont" THEN Continue(C, s, b) ELSE s
      b2 == CASE a[1] = "set" -> BpSet(b, a[2]) [] a[1] = "rm" -> BpRemove(b, a[2]) [] a[1] = "clr" -> <<>> [] OTHER -> b
      w == Where(s2, IF a[1] = "cont" /\ s.st = Stopped THEN at + 1 ELSE at)
  IN /\ s' = s2 /\ b' = b2 /\ h' = Append(h, i) /\ from' = at
     /\ at' = IF w = {} THEN 0 ELSE IF a[1] = "cont" THEN Least(w) ELSE at
     /\ PrintT(<<"H", ToString(h')>>)
Next == Len(h) < Conf.depth /\ \E i \in 1..Len(Conf.alphabet) : Do(i)
Spec == Init /\ [][Next]_vars
View == <<s, b, at, Len(h)>>
Last == Conf.alphabet[h[Len(h)]]
\* a state of the plain run
OnTheWay == at # 0
\* stopped nowhere but at a breakpoint, and at every one
StopsThere == s.st = Stopped /\ Last[1] = "cont" => At_(b, s)
PassesNone == h # <<>> /\ Last[1] = "cont" => \A j \in (from + 1)..(at - 1) : ~At_(b, Path[j])
\* nothing is missed by the last stop either
EndsOrStops == h # <<>> /\ Last[1] = "cont" => s.st # Ready
NoDuplicates == \A i, j \in 1..Len(b) : b[i] = b[j] => i = j
=============================================================================
