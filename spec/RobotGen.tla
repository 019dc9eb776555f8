------------------------------ MODULE RobotGen ------------------------------
(***************************************************************************)
(* Closed model over RobotStep: from the initial world reached by a fixed  *)
(* prefix, take operations of a fixed alphabet in every order.  States are *)
(* identified by the world (VIEW), so that TLC visits every transition of  *)
(* the reachable graph once; each transition is printed with a shortest    *)
(* history leading to it and becomes a test of the real code.              *)
(*                                                                         *)
(* GEN (environment) names a JSON file: robots, prefix, alphabet (each op  *)
(* with field "max", how often it may be taken), depth.                    *)
(***************************************************************************)
EXTENDS RobotStep, Json, IOUtils

Conf == JsonDeserialize(IOEnv.GEN)
Alpha == Conf.alphabet
VARIABLES w, used, h
vars == <<w, used, h>>
View == <<w, used>>

\* "xfer": the first message of a robot is taken and given to others
Do(x, op) ==
  IF op.op = "xfer"
  THEN LET s == x.rs[op.r]
           m == First(s.out)
       IN IF QSize(s.out) = 0 THEN {}
          ELSE LET s2 == [s EXCEPT !.out = PopOut(@)]
                   x2 == Upd(x, op.r, s2)
               IN {[x2 EXCEPT !.rs = [q \in DOMAIN x2.rs |->
                       IF q \in Rng(op.to) THEN Arrive(x2.rs[q], op.r, m) ELSE x2.rs[q]]]}
  ELSE IF op.op = "list"         \* a full period of processing rounds
  THEN LET RECURSIVE N(_, _)
           N(s, n) == IF n = 0 THEN s ELSE N(ProcOut(s), n - 1)
       IN {Upd(x, op.r, N(x.rs[op.r], Period))}
  ELSE IF op.op = "keep"         \* a message is lost
  THEN IF QSize(x.rs[op.r].out) = 0 THEN {} ELSE {Upd(x, op.r, [x.rs[op.r] EXCEPT !.out = PopOut(@)])}
  ELSE IF op.op = "procin" /\ DOMAIN x.rs[op.r].inq = {} /\ DOMAIN x.rs[op.r].mem = {} THEN {}
  ELSE {y.w : y \in Step(x, op)}

RECURSIVE RunAll(_, _)
RunAll(x, ops) == IF ops = <<>> THEN x ELSE RunAll(CHOOSE y \in Do(x, Head(ops)) : TRUE, Tail(ops))

Init == /\ w = RunAll(World(Conf.robots), Conf.prefix)
        /\ used = [i \in 1..Len(Alpha) |-> 0]
        /\ h = <<>>

Next == /\ Len(h) < Conf.depth
        /\ \E i \in 1..Len(Alpha) :
             /\ used[i] < Alpha[i].max
             /\ LET succ == Do(w, Alpha[i])
                IN /\ succ # {}
                   /\ w' \in succ
                   /\ h' = Append(h, i)
                   /\ used' = IF Alpha[i].max >= 9 THEN used ELSE [used EXCEPT ![i] = @ + 1]
                   /\ PrintT(<<"H", ToString(h')>>)

Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties of the specification itself, checked on the same graph       *)
(***************************************************************************)
\* the recorded entries of shared memory never go back (P01)
NoRegress ==
  [][\A r \in DOMAIN w.rs : \A id \in DOMAIN w.rs[r].vs : \A k \in DOMAIN w.rs[r].vs[id].e :
        LET a == w.rs[r].vs[id].e[k]
        IN (id \in DOMAIN w'.rs[r].vs /\ k \in DOMAIN w'.rs[r].vs[id].e) =>
             LET b == w'.rs[r].vs[id].e[k]
             IN b.ts > a.ts \/ (b.ts = a.ts /\ (b = a \/ w.rs[r].vs[id].oc # "none" \/ b.rob # a.rob))]_w
\* at most one queued update per key; at most one list; joins and leaves disjoint (P07)
QueueWf ==
  \A r \in DOMAIN w.rs :
    LET o == w.rs[r].out
        pq == o.P \o o.Q
    IN /\ \A i, j \in 1..Len(pq) : (pq[i].id = pq[j].id /\ pq[i].key = pq[j].key) => i = j
       /\ Len(o.L) <= 1
       /\ (o.L # <<>> => o.J = <<>> /\ o.V = <<>>)
       /\ \A i \in 1..Len(o.J) : ~HasId(o.V, o.J[i].id)
\* a queued update is the newest this robot produced or relayed for the key:
\* never newer than the stored entry unless the entry was deleted
QueueFresh ==
  \A r \in DOMAIN w.rs :
    LET s == w.rs[r] IN
    \A i \in 1..Len(s.out.P) : LET m == s.out.P[i] IN
       Has(s, m.id, m.key) => Ent(s, m.id, m.key).ts <= m.ts
\* a receiver of everything still queued ends with the actual membership (P06, P07)
RECURSIVE ViewAfter(_, _)
ViewAfter(v, q) == IF q = <<>> THEN v
                   ELSE ViewAfter(CASE Head(q).t = "L" -> Head(q).ids
                                    [] Head(q).t = "J" -> v \cup {Head(q).id}
                                    [] OTHER -> v \ {Head(q).id}, Tail(q))
Swarmy(q) == SelectSeq(q, LAMBDA m : m.t \in {"L", "J", "V"})
MergeSound ==
  \* a single receiver 2 that hears every message of robot 1
  (DOMAIN w.rs = {1, 2} /\ "lossless" \in DOMAIN Conf) =>
    LET q == (IF 1 \in DOMAIN w.rs[2].inq THEN Swarmy(w.rs[2].inq[1]) ELSE <<>>)
             \o w.rs[1].out.L \o w.rs[1].out.J \o w.rs[1].out.V
    IN ViewAfter(Known(w.rs[2], 1), q) = Joined(w.rs[1])
\* when everything has been delivered, all agree (P02)
Quiet == \A r \in DOMAIN w.rs : QSize(w.rs[r].out) = 0 /\ DOMAIN w.rs[r].inq = {}
Converged ==
  ("lossless" \in DOMAIN Conf /\ Quiet) =>
     \A a, b \in DOMAIN w.rs : \A id \in DOMAIN w.rs[a].vs \cap DOMAIN w.rs[b].vs :
        w.rs[a].vs[id].e = w.rs[b].vs[id].e
=============================================================================
