----------------------------- MODULE ContTrace ------------------------------
(* Validates recorded histories of the containers against Cont.            *)
EXTENDS Cont, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, pos, w, ok
vars == <<tid, pos, w, ok>>
Ops == Traces[tid].ops
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in Rng(a) \cup Rng(b) :
   Cardinality({i \in 1..Len(a) : a[i] = x}) = Cardinality({i \in 1..Len(b) : b[i] = x})
SeqObs(q, o) == /\ o.size = Len(q) /\ o.get = q
                /\ o.each = [i \in 1..Len(q) |-> <<i - 1, q[i]>>]
                /\ o.empty = (IF q = <<>> THEN 1 ELSE 0) /\ o.room = 1
                /\ ("last" \in DOMAIN o => o.last = Last(q))
MapObs(m, o) == /\ o.size = Cardinality(DOMAIN m) /\ Len(o.each) = o.size
                /\ {<<e[1], e[2]>> : e \in Rng(o.each)} = {<<k, m[k]>> : k \in DOMAIN m}
                /\ o.empty = (IF DOMAIN m = {} THEN 1 ELSE 0)
St(c) == IF c \in DOMAIN w THEN w[c] ELSE None
ContNext(op) ==
  LET s == St(op.c)
      r == Eval(op.kind, s, op)
      o == op.obs
      wantGone == IF op.dtor THEN r.gone ELSE <<>>
      good == /\ SameBag(o.gone, wantGone)
              /\ (op.kind = "da" /\ op.op \notin {"clear", "free"} => o.gone = wantGone)
              /\ (op.op = "free" => o.null = 1)
              /\ (op.op = "find" => o.ret = r.ret)
              /\ (op.op = "get" => o.ret = r.ret /\ o.has = (IF r.ret = -1 THEN 0 ELSE 1))
              /\ (op.op = "rem" /\ op.kind = "di" => o.ret = r.ret)
              /\ (op.op = "clone" => SeqObs(s, o.other))
              /\ (IF op.op = "free" THEN TRUE ELSE IF op.kind = "da" THEN SeqObs(r.s, o) ELSE MapObs(r.s, o))
      w2 == (op.c :> r.s) @@ w
  IN [good |-> good, w |-> IF op.op = "clone" THEN (op.to :> s) @@ w2 ELSE w2, want |-> <<r.s, wantGone, r.ret>>]
MarkIds(m, ts) == [i \in 1..Len(ts) |-> IF ts[i] \in Texts(m) THEN m.ids[ts[i]] ELSE -1]
SmNext(op) ==
  LET m == IF op.op = "new" THEN NewSm ELSE St(op.c)
      o == op.obs
      m2 == CASE op.op = "new" -> NewSm
              [] op.op = "reg" -> Reg(m, op.t, o.id, op.protect)
              [] op.op = "get" -> m
              [] op.op = "clear" -> ClearMarks(m)
              [] op.op = "mark" -> Mark(m, o.id)
              [] op.op = "prune" -> Prune(m)
              [] op.op = "burn" -> Burn(m, MarkIds(m, op.marks))
              [] op.op = "free" -> None
      live == IF op.op = "free" THEN {} ELSE {<<m2.ids[t], t>> : t \in Texts(m2)}
      good == IF op.op = "free" THEN o.null = 1 ELSE
              /\ (op.op = "reg" => RegOk(m, op.t, o.id))
              /\ (op.op = "get" => o.has = (IF TextOf(m, o.id) = {} THEN 0 ELSE 1) /\ (o.has = 1 => o.ret \in TextOf(m, o.id)))
              \* none of the short-lived strings shares an id with a live one
              /\ (op.op = "burn" => /\ o.wrong = 0
                                    /\ \A t \in Texts(m2) : \A r \in Rng(o.runs) : m2.ids[t] < r[1] \/ m2.ids[t] > r[2])
              /\ {<<e[1], e[2]>> : e \in Rng(o.all)} = live /\ Len(o.all) = Cardinality(live)
              /\ SmInjective(m2)
  IN [good |-> good, w |-> (op.c :> m2) @@ w, want |-> m2]
NextOf(op) == IF op.kind = "sm" THEN SmNext(op) ELSE ContNext(op)
Init == tid \in 1..Len(Traces) /\ pos = 1 /\ ok = TRUE /\ w = Empty
Next == /\ pos <= Len(Ops) /\ ok
        /\ LET n == NextOf(Ops[pos])
           IN /\ ok' = n.good /\ w' = n.w
              /\ IF ~n.good THEN PrintT(<<"REJECT", tid, pos, ToString(n.want)>>)
                 ELSE IF pos >= Len(Ops) THEN PrintT(<<"ACCEPT", tid>>) ELSE TRUE
        /\ pos' = pos + 1 /\ tid' = tid
Spec == Init /\ [][Next]_vars
=============================================================================
