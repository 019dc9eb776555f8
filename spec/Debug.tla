------------------------------- MODULE Debug --------------------------------
(* Running the machine under the debugger: breakpoints are offsets of      *)
(* instructions; a run stops before the instruction at a breakpoint, and   *)
(* goes on with that very instruction when it is continued.                *)
EXTENDS BuzzVM
Stopped == 4
\* ---- the breakpoints: b lists them in the order they were set
BpSet(b, off) == IF \E i \in 1..Len(b) : b[i] = off THEN b ELSE Append(b, off)
BpRemove(b, i) == IF i < 0 \/ i >= Len(b) THEN b ELSE SubSeq(b, 1, i) \o SubSeq(b, i + 2, Len(b))
At_(b, s) == \E i \in 1..Len(b) : b[i] = s.pc
\* ---- until the end, an error, a breakpoint, or until d frames are left
RECURSIVE Go(_, _, _, _, _)
Go(c, s, b, d, k) == IF s.st # Ready \/ s.wild \/ Len(s.ss) <= d THEN s
                     ELSE IF At_(b, s) THEN [s EXCEPT !.st = Stopped]
                     ELSE IF k = 0 THEN Open(s)
                     ELSE LET n == Step(c, s) IN Go(c, [n EXCEPT !.l = s.l \o n.l], b, d, k - 1)
Continue(c, s, b) ==
  CASE s.st = Ready -> Go(c, [s EXCEPT !.l = <<>>], b, 0, 400)
    [] s.st = Stopped -> Go(c, Step(c, [s EXCEPT !.st = Ready]), b, 0, 400)
    [] OTHER -> [s EXCEPT !.l = <<>>]
DebugCall(c, s0, name, args, b) ==
  IF s0.st \notin {Ready, Done, Stopped} THEN [s0 EXCEPT !.l = <<>>]
  ELSE LET s == [s0 EXCEPT !.st = Ready, !.l = <<>>]
           i == GIndex(c, name)
           f == s.g[i]
           q == Append(Append(Top(s), Nil), f) \o args
       IN IF i = 0 THEN Open(s)
          ELSE IF f[1] # "c" THEN Fail(s, eType)
          ELSE Go(c, Call(c, Push(SetTop(s, q), I(Len(args))), 0), b, Len(s.ss), 400)
=============================================================================
