------------------------------ MODULE VmTrace -------------------------------
(* Recorded executions of the machine, step by step, against BuzzVM.       *)
EXTENDS Debug, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, pos, s, ok, b
vars == <<tid, pos, s, ok, b>>
Evs == Traces[tid].ev
C == Traces[tid].c
\* an observed dump as a state
ObjOf(x) == IF x[1] = "t" THEN <<"t", {<<Key(x[2][i][1]), x[2][i][2]>> : i \in 1..Len(x[2])}>> ELSE x
OkObj(x) == x[1] = "t" => Cardinality({Key(x[2][i][1]) : i \in 1..Len(x[2])}) = Len(x[2]) /\ x[3] = Len(x[2])
Obs(d) == [pc |-> d.pc, op |-> d.op, st |-> d.st, er |-> d.er, ss |-> d.ss, ls |-> d.ls, g |-> d.g,
           o |-> [i \in 1..Len(d.o) |-> ObjOf(d.o[i])], l |-> d.l, wild |-> FALSE]
MatchSeq(w, v) == Len(w) = Len(v) /\ \A i \in 1..Len(w) : Match(w[i], v[i])
MatchObj(w, v) == w[1] = v[1] /\ (IF w[1] = "c" THEN w[2] = v[2] /\ w[3] = v[3] /\ w[4] = v[4] /\ MatchSeq(w[5], v[5])
                                  ELSE {e[1] : e \in w[2]} = {e[1] : e \in v[2]} /\ \A e \in w[2] : Match(e[2], TLookup(v[2], e[1])))
Whole(d) == /\ d.cur = <<1, 1>> /\ \A i \in 1..Len(d.o) : OkObj(d.o[i])
SameMemory(w, v) == /\ Len(w.ss) = Len(v.ss) /\ \A i \in 1..Len(w.ss) : MatchSeq(w.ss[i], v.ss[i])
                    /\ Len(w.ls) = Len(v.ls) /\ \A i \in 1..Len(w.ls) : w.ls[i][1] = v.ls[i][1] /\ MatchSeq(w.ls[i][2], v.ls[i][2])
                    /\ MatchSeq(w.g, v.g)
                    /\ Len(w.o) = Len(v.o) /\ \A i \in 1..Len(w.o) : MatchObj(w.o[i], v.o[i])
\* errors whose place is pinned: the instruction itself, not a call or return
Located(w) == w.er \notin {eInstr} /\ Op(C, w.op) \notin {"ret0", "ret1", "callc", "calls"}
SameLog(w, v) == Len(w) = Len(v) /\ \A i \in 1..Len(w) : MatchSeq(w[i], v[i])
SameGlobals(w, v) == MatchSeq(w.g, v.g)
Agree(w, v, d, prev) ==
  IF w.wild THEN TRUE
  ELSE IF w.st = Failed THEN
     IF prev.st = Failed THEN v = [prev EXCEPT !.l = <<>>]                    \* a failed machine does not move
     ELSE v.st = Failed /\ v.er = w.er /\ d.m = 1 /\ SameLog(w.l, v.l) /\ SameGlobals(w, v) /\ (Located(w) => v.op = w.op)
  ELSE v.st = w.st /\ v.er = w.er /\ v.pc = w.pc /\ SameLog(w.l, v.l) /\ SameMemory(w, v) /\ Whole(d)
\* the prologue of a compiled program defines its functions, in any order
Deref(o, v) == IF v[1] \in {"c", "t"} THEN o[v[2]] ELSE v
LoadOk(w, v, d) == \/ w.wild
                   \/ /\ w.st = v.st /\ w.pc = v.pc /\ w.ss = v.ss /\ w.ls = v.ls /\ Whole(d)
                      /\ \A i \in 1..Len(w.g) : w.g[i] = <<"none">> \/ Deref(w.o, w.g[i]) = Deref(v.o, v.g[i])
Want(e) == CASE e.e = "load" -> IF e.prologue THEN Prologue(C, Start(C), 400) ELSE Obs(e.s)
             [] e.e = "step" -> Step(C, s)
             [] e.e = "call" -> FunctionCall(C, s, e.name, e.args)
             [] e.e = "clos" -> LET p == [s EXCEPT !.l = <<>>]
                                IN IF s.st # Ready THEN p ELSE ClosureCall(C, SetTop(p, Append(Top(p), p.g[GIndex(C, e.name)]) \o e.args), Len(e.args))
             [] e.e = "cont" -> Continue(C, s, b)
             [] e.e = "dcall" -> DebugCall(C, s, e.name, e.args, b)
             [] e.e = "bp" -> [s EXCEPT !.l = <<>>]
             [] e.e = "push" -> IF s.st = Failed THEN [s EXCEPT !.l = <<>>] ELSE [SetTop(s, Top(s) \o e.args) EXCEPT !.l = <<>>]
Bps(e) == CASE e.e # "bp" -> b
            [] e.what = "set" -> BpSet(b, e.n) [] e.what = "rm" -> BpRemove(b, e.n) [] e.what = "clr" -> <<>>
\* asked for, the breakpoints are all there and no others
BpsOk(e, q) == e.e = "bp" => e.bps = q /\ \A i \in 1..Len(e.has) : e.has[i][2] = IF \E j \in 1..Len(q) : q[j] = e.has[i][1] THEN 1 ELSE 0
Init == tid \in 1..Len(Traces) /\ pos = 1 /\ ok = TRUE /\ s = <<>> /\ b = <<>>
Next == /\ pos <= Len(Evs) /\ ok
        /\ LET e == Evs[pos]
               w == Want(e)
               v == Obs(e.s)
               good == (IF e.e = "load" THEN LoadOk(w, v, e.s) ELSE Agree(w, v, e.s, s)) /\ e.r = 1 /\ BpsOk(e, Bps(e))
           IN /\ ok' = good /\ s' = v /\ b' = Bps(e)
              /\ IF ~good THEN PrintT(<<"REJECT", tid, pos, ToString(w)>>)
                 ELSE IF pos >= Len(Evs) THEN PrintT(<<"ACCEPT", tid>>) ELSE TRUE
        /\ pos' = pos + 1 /\ tid' = tid
Spec == Init /\ [][Next]_vars
=============================================================================
