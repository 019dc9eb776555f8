----------------------------- MODULE CodecTrace -----------------------------
(***************************************************************************)
(* Validates what robots put on the wire and what others read from it.     *)
(* A step is one of                                                        *)
(*  wire  the message sent (m, as the script produced it) and its bytes    *)
(*  got   what a listener was called with; val: what a read returned       *)
(*  read  bytes made up by the environment and the abstract message (m) a  *)
(*        conforming robot takes them for ("bad": refused); used to bind   *)
(*        the byte-level input of the other trace modules to this format   *)
(***************************************************************************)
EXTENDS Codec, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, pos, ok
vars == <<tid, pos, ok>>
Rng(q) == {q[i] : i \in 1..Len(q)}
\* tables come as sequences of pairs
RECURSIVE V(_)
V(v) == IF v[1] = "t" THEN <<"t", {<<V(p[1]), V(p[2])>> : p \in Rng(v[2])}>> ELSE v
M(m) == [f \in DOMAIN m |-> IF f \in {"topic", "key", "val"} THEN V(m[f]) ELSE m[f]]
Strip(m) == [f \in DOMAIN m \ {"end"} |-> m[f]]
SameMsg(a, b) == IF a.t = "L" /\ b.t = "L" THEN Rng(a.ids) = Rng(b.ids) /\ Len(a.ids) = Len(b.ids) ELSE a = b
Flat(v) == v[1] # "t"
FlatMsg(m) == \A f \in DOMAIN m : f \in {"topic", "key", "val"} => Flat(m[f])
Good(op) ==
  CASE op.op = "wire" ->
         LET d == DecodeMsg(op.bytes)
         IN /\ d # Bad
            /\ SameMsg(Strip(d), M(op.m))
            /\ d.end = Len(op.bytes)
            \* one encoding, whoever encodes (tables and id lists: any order)
            /\ IF op.m.t = "L" \/ ~FlatMsg(op.m) THEN TRUE ELSE op.bytes = EncodeMsg(M(op.m))
    [] op.op = "got" -> V(op.val) = V(op.m.val) /\ V(op.topic) = V(op.m.topic) /\ op.from = op.sender
    [] op.op = "val" -> V(op.val) = V(op.m.val)
    [] op.op = "read" -> SameMsg(Strip(DecodeMsg(op.bytes) @@ [end |-> 0]), M(op.m))
Wanted(op) == IF op.op \in {"wire", "read"} THEN <<DecodeMsg(op.bytes), M(op.m)>> ELSE <<M(op.m)>>
Ops == Traces[tid].ops
Init == tid \in 1..Len(Traces) /\ pos = 1 /\ ok = TRUE
Next == /\ pos <= Len(Ops) /\ ok
        /\ ok' = Good(Ops[pos])
        /\ pos' = pos + 1 /\ tid' = tid
        /\ IF ~ok' THEN PrintT(<<"REJECT", tid, pos, ToString(Wanted(Ops[pos]))>>)
           ELSE IF pos' > Len(Ops) THEN PrintT(<<"ACCEPT", tid>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
