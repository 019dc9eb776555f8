------------------------------- MODULE Robot -------------------------------
(***************************************************************************)
(* One Buzz robot as seen by its script and by the embedding program:      *)
(* shared memory (virtual stigmergy), swarms, the view of other robots'    *)
(* swarms, listeners, incoming and outgoing message queues.                *)
(*                                                                         *)
(* Pure operators: each takes a robot state and returns [s |-> new state,  *)
(* log |-> what the script recorded].  Closed models (Net*.tla) and the    *)
(* trace checker (RobotTrace.tla) are built from the same operators.       *)
(*                                                                         *)
(* Values and keys are opaque tokens (strings such as "i:5", "s:abc", a    *)
(* canonical text for tables); "n" is nil.  Log entries are sequences of   *)
(* tokens.                                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

NIL == "n"
Period == 10      \* processing rounds between two swarm lists
MaxAge == 50      \* rounds of silence after which a neighbour is forgotten

I(n) == "i:" \o ToString(n)

Prio == <<"B", "L", "P", "Q", "J", "V">>
EmptyOut == [B |-> <<>>, L |-> <<>>, P |-> <<>>, Q |-> <<>>, J |-> <<>>, V |-> <<>>]

InitRobot(id) ==
  [id |-> id, st |-> "ready",
   vs |-> <<>>,            \* stigmergy id -> [e: key -> entry, oc, ol]
   sw |-> <<>>,            \* swarm id -> joined?
   mem |-> <<>>,           \* robot -> [age, sw]
   lst |-> <<>>,           \* topic -> listener kind
   nb |-> {},              \* current neighbours
   cnt |-> Period,         \* rounds to the next swarm list
   inq |-> <<>>,           \* sender -> sequence of messages
   out |-> EmptyOut]

Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Put(f, x, v) == (x :> v) @@ f

R(s, log) == [s |-> s, log |-> log]

(***************************************************************************)
(* Outgoing queue                                                          *)
(***************************************************************************)
MsgV(t, id, k, e) == [t |-> t, id |-> id, key |-> k, val |-> e.v, ts |-> e.ts, rob |-> e.rob]

\* position of the queued message about (id, k): <<queue, index>> or <<>>
FindV(out, id, k) ==
  LET F(q) == {i \in 1..Len(out[q]) : out[q][i].id = id /\ out[q][i].key = k}
  IN IF F("P") # {} THEN <<"P", CHOOSE i \in F("P") : TRUE>>
     ELSE IF F("Q") # {} THEN <<"Q", CHOOSE i \in F("Q") : TRUE>>
     ELSE <<>>

AppendV(out, t, id, k, e) ==
  LET p == FindV(out, id, k)
      new == MsgV(t, id, k, e)
  IN IF p = <<>> THEN [out EXCEPT ![t] = Append(@, new)]
     ELSE LET old == out[p[1]][p[2]]
          IN IF old.ts > e.ts THEN out
             ELSE IF old.ts = e.ts /\ old.rob = e.rob
             THEN IF t = "P" THEN [out EXCEPT ![p[1]][p[2]].val = e.v] ELSE out
             ELSE LET o2 == [out EXCEPT ![p[1]] = RemoveAt(@, p[2])]
                  IN [o2 EXCEPT ![t] = Append(@, new)]

AppendB(out, topic, v) ==
  [out EXCEPT !.B = Append(@, [t |-> "B", topic |-> topic, val |-> v])]

AppendL(out, ids) ==
  [out EXCEPT !.L = <<[t |-> "L", ids |-> ids]>>, !.J = <<>>, !.V = <<>>]

HasId(q, id) == \E i \in 1..Len(q) : q[i].id = id
DropId(q, id) == SelectSeq(q, LAMBDA m : m.id # id)
AddId(q, t, id) == IF HasId(q, id) THEN q ELSE Append(q, [t |-> t, id |-> id])

AppendJ(out, id) ==
  IF out.L # <<>> THEN [out EXCEPT !.L[1].ids = @ \cup {id}]
  ELSE [out EXCEPT !.J = AddId(@, "J", id), !.V = DropId(@, id)]
AppendLv(out, id) ==
  IF out.L # <<>> THEN [out EXCEPT !.L[1].ids = @ \ {id}]
  ELSE [out EXCEPT !.V = AddId(@, "V", id), !.J = DropId(@, id)]

QSize(out) == Len(out.B) + Len(out.L) + Len(out.P) + Len(out.Q) + Len(out.J) + Len(out.V)
FirstKind(out) == LET k == {i \in 1..6 : out[Prio[i]] # <<>>}
                  IN Prio[CHOOSE i \in k : \A j \in k : i <= j]
First(out) == out[FirstKind(out)][1]
PopOut(out) == IF QSize(out) = 0 THEN out ELSE [out EXCEPT ![FirstKind(out)] = Tail(@)]

(***************************************************************************)
(* Shared memory: local operations                                         *)
(***************************************************************************)
Has(s, id, k) == id \in DOMAIN s.vs /\ k \in DOMAIN s.vs[id].e
Ent(s, id, k) == s.vs[id].e[k]

VCreate(s, id) ==
  [s EXCEPT !.vs = Put(@, id, [e |-> <<>>, oc |-> "none", ol |-> "none"])]

Store(s, id, k, e) == [s EXCEPT !.vs[id].e = Put(@, k, e)]
Erase(s, id, k) == [s EXCEPT !.vs[id].e = Without(@, k)]
Queue(s, t, id, k, e) == [s EXCEPT !.out = AppendV(@, t, id, k, e)]

VPut(s, id, k, v) ==
  IF id \notin DOMAIN s.vs THEN s
  ELSE IF Has(s, id, k)
  THEN LET e == [v |-> v, ts |-> Ent(s, id, k).ts + 1, rob |-> s.id]
       IN IF v # NIL THEN Queue(Store(s, id, k, e), "P", id, k, e)
          ELSE Queue(Erase(s, id, k), "P", id, k, e)
  ELSE IF v = NIL THEN s
  ELSE LET e == [v |-> v, ts |-> 1, rob |-> s.id]
       IN Queue(Store(s, id, k, e), "P", id, k, e)

VGet(s, id, k) ==
  IF id \notin DOMAIN s.vs THEN R(s, NIL)
  ELSE IF Has(s, id, k) THEN R(Queue(s, "Q", id, k, Ent(s, id, k)), Ent(s, id, k).v)
  ELSE R(Queue(s, "Q", id, k, [v |-> NIL, ts |-> 0, rob |-> s.id]), NIL)

VSize(s, id) == IF id \in DOMAIN s.vs THEN Cardinality(DOMAIN s.vs[id].e) ELSE 0
VAll(s, id) == IF id \notin DOMAIN s.vs THEN {}
               ELSE {<<k, Ent(s, id, k).v, I(Ent(s, id, k).rob)>> : k \in DOMAIN s.vs[id].e}

(***************************************************************************)
(* Shared memory: conflicts and reception                                  *)
(***************************************************************************)
DefaultWinner(l, r) ==
  IF (l.v = NIL) = (r.v = NIL) THEN (IF l.rob > r.rob THEN l ELSE r)
  ELSE IF l.v # NIL THEN l ELSE r

\* outcome of a conflict manager of the given kind; <<>> when it returns no entry
Manager(kind, me, l, r) ==
  CASE kind = "local"  -> <<[v |-> l.v, ts |-> l.ts, rob |-> l.rob]>>
    [] kind = "remote" -> <<[v |-> r.v, ts |-> l.ts, rob |-> r.rob]>>
    [] kind = "low"    -> <<IF l.rob < r.rob THEN [v |-> l.v, ts |-> l.ts, rob |-> l.rob]
                                             ELSE [v |-> r.v, ts |-> l.ts, rob |-> r.rob]>>
    [] kind = "own"    -> <<[v |-> "s:mine", ts |-> l.ts, rob |-> me]>>
    [] kind = "third"  -> <<[v |-> "s:third", ts |-> l.ts, rob |-> 99]>>
    [] kind = "lmix"   -> <<[v |-> r.v, ts |-> l.ts, rob |-> l.rob]>>
    [] kind = "nil"    -> <<[v |-> NIL, ts |-> l.ts, rob |-> r.rob]>>
    [] kind \in {"bad", "norobot"} -> <<>>
    [] OTHER -> <<>>

Conflict(s, id, k, r) ==
  LET l == Ent(s, id, k)
      kind == s.vs[id].oc
      log1 == IF kind = "none" THEN <<>>
              ELSE << <<"s:oc", k, I(l.rob), l.v, I(l.ts), I(r.rob), r.v, I(r.ts)>> >>
      c == IF kind = "none" THEN <<DefaultWinner(l, r)>> ELSE Manager(kind, s.id, l, r)
  IN IF kind = "err" THEN R([s EXCEPT !.st = "error:6"], log1)
     ELSE IF c = <<>> THEN R(s, log1)
     ELSE LET w == c[1]
              s1 == Queue(Store(s, id, k, w), "P", id, k, w)
              lost == w.rob # s.id /\ l.rob = s.id
              ol == s.vs[id].ol
              log2 == IF lost /\ ol # "none" THEN << <<"s:ol", k, I(l.rob), l.v, I(l.ts)>> >> ELSE <<>>
              s2 == IF ~lost \/ ol \in {"none", "rec"} THEN s1
                    ELSE IF ol = "put" THEN VPut(s1, id, k, "s:again")
                    ELSE IF ol = "err" THEN [s1 EXCEPT !.st = "error:6"]
                    ELSE s1
          IN R(s2, log1 \o log2)

RxPut(s, m) ==
  LET e == [v |-> m.val, ts |-> m.ts, rob |-> m.rob]
      id == m.id
      k == m.key
  IN IF id \notin DOMAIN s.vs THEN R(s, <<>>)
     ELSE IF ~Has(s, id, k) \/ Ent(s, id, k).ts < e.ts
          THEN R(Queue(Store(s, id, k, e), "P", id, k, e), <<>>)
     ELSE IF Ent(s, id, k).ts = e.ts /\ Ent(s, id, k).rob # e.rob THEN Conflict(s, id, k, e)
     ELSE R(s, <<>>)

RxQuery(s, m) ==
  LET e == [v |-> m.val, ts |-> m.ts, rob |-> m.rob]
      id == m.id
      k == m.key
  IN IF id \notin DOMAIN s.vs THEN R(Queue(s, "Q", id, k, e), <<>>)
     ELSE IF ~Has(s, id, k)
          THEN IF e.v = NIL THEN R(Queue(s, "Q", id, k, e), <<>>)
               ELSE R(Queue(Store(s, id, k, e), "P", id, k, e), <<>>)
     ELSE LET l == Ent(s, id, k)
          IN IF l.ts < e.ts THEN R(Queue(Store(s, id, k, e), "P", id, k, e), <<>>)
             ELSE IF l.ts > e.ts THEN R(Queue(s, "P", id, k, l), <<>>)
             ELSE IF l.rob # e.rob THEN Conflict(s, id, k, e)
             ELSE R(s, <<>>)

(***************************************************************************)
(* Swarms                                                                  *)
(***************************************************************************)
SCreate(s, id) == IF id \in DOMAIN s.sw THEN s ELSE [s EXCEPT !.sw = Put(@, id, FALSE)]
SError(s) == [s EXCEPT !.st = "error:8"]
SJoin(s, id) == IF id \notin DOMAIN s.sw THEN SError(s)
                ELSE [s EXCEPT !.sw[id] = TRUE, !.out = AppendJ(@, id)]
SLeave(s, id) == IF id \notin DOMAIN s.sw THEN SError(s)
                 ELSE [s EXCEPT !.sw[id] = FALSE, !.out = AppendLv(@, id)]
SSelect(s, id, b) == IF b THEN SJoin(s, id) ELSE SLeave(s, id)
InSw(s, id) == id \in DOMAIN s.sw /\ s.sw[id]
\* a derived swarm: id becomes b
SDerive(s, id, b) ==
  LET was == InSw(s, id)
      s1 == [s EXCEPT !.sw = Put(@, id, b)]
  IN IF b THEN [s1 EXCEPT !.out = AppendJ(@, id)]
     ELSE IF was THEN [s1 EXCEPT !.out = AppendLv(@, id)]
     ELSE s1
SOthers(s, id, new) == IF id \notin DOMAIN s.sw THEN SError(s) ELSE SDerive(s, new, ~s.sw[id])
SUnion(s, new, a, b) == SDerive(s, new, InSw(s, a) \/ InSw(s, b))
SInter(s, new, a, b) == SDerive(s, new, InSw(s, a) /\ InSw(s, b))
SDiff(s, new, a, b) == SDerive(s, new, InSw(s, a) /\ ~InSw(s, b))

(***************************************************************************)
(* The view of the others' swarms                                          *)
(***************************************************************************)
Known(s, r) == IF r \in DOMAIN s.mem THEN s.mem[r].sw ELSE {}
SetMem(s, r, ids) == [s EXCEPT !.mem = IF ids = {} THEN Without(@, r)
                                       ELSE Put(@, r, [age |-> 0, sw |-> ids])]
RxList(s, r, ids) == SetMem(s, r, ids)
RxJoin(s, r, id) == SetMem(s, r, Known(s, r) \cup {id})
RxLeave(s, r, id) == SetMem(s, r, Known(s, r) \ {id})
AgeMembers(s) ==
  LET alive == {r \in DOMAIN s.mem : s.mem[r].age + 1 <= MaxAge}
  IN [s EXCEPT !.mem = [r \in alive |-> [s.mem[r] EXCEPT !.age = @ + 1]]]

Kin(s, stack) == IF stack = <<>> THEN s.nb
                 ELSE {r \in s.nb : stack[Len(stack)] \in Known(s, r)}
NonKin(s, stack) == IF stack = <<>> THEN {}
                    ELSE {r \in s.nb : stack[Len(stack)] \notin Known(s, r)}
\* what swarm.id(n) answers: the n-th enclosing swarm, innermost first
SwarmId(stack, n) == IF stack = <<>> THEN NIL
                     ELSE LET k == IF n < 1 THEN 1 ELSE IF n > Len(stack) THEN Len(stack) ELSE n
                          IN I(stack[Len(stack) - k + 1])

(***************************************************************************)
(* Broadcast and listeners                                                 *)
(***************************************************************************)
Broadcast(s, topic, v) == [s EXCEPT !.out = AppendB(@, topic, v)]
Listen(s, topic, kind) == [s EXCEPT !.lst = Put(@, topic, kind)]
Ignore(s, topic) == [s EXCEPT !.lst = Without(@, topic)]

RxBroadcast(s, from, m) ==
  IF m.topic \notin DOMAIN s.lst THEN R(s, <<>>)
  ELSE LET kind == s.lst[m.topic]
           log == << <<"s:ls", "s:" \o kind, m.topic, m.val, I(from)>> >>
       IN CASE kind = "ign" -> R(Ignore(s, m.topic), log)
            [] kind = "echo" -> R(Broadcast(s, "s:echo", m.val), log)
            [] kind = "swap" -> R(Listen(s, m.topic, "rec"), log)
            [] kind = "put" -> R(VPut(s, 1, m.topic, m.val), log)
            [] kind = "err" -> R([s EXCEPT !.st = "error:6"], log)
            [] OTHER -> R(s, log)

Rx(s, from, m) ==
  CASE m.t = "B" -> RxBroadcast(s, from, m)
    [] m.t = "P" -> RxPut(s, m)
    [] m.t = "Q" -> RxQuery(s, m)
    [] m.t = "L" -> R(RxList(s, from, m.ids), <<>>)
    [] m.t = "J" -> R(RxJoin(s, from, m.id), <<>>)
    [] m.t = "V" -> R(RxLeave(s, from, m.id), <<>>)
    [] OTHER -> R(s, <<>>)         \* junk: no effect

Arrive(s, from, m) ==
  [s EXCEPT !.inq = Put(@, from, (IF from \in DOMAIN @ THEN @[from] ELSE <<>>) \o <<m>>)]

\* one message of one sender, oldest first
TakeFrom(s, from) ==
  [s EXCEPT !.inq = IF Len(@[from]) = 1 THEN Without(@, from) ELSE [@ EXCEPT ![from] = Tail(@)]]

\* all outcomes of a processing call: senders interleave in any order
RECURSIVE Drain(_)
Drain(X) ==
  LET live == {x \in X : x.s.st = "ready" /\ DOMAIN x.s.inq # {}}
  IN IF live = {} THEN X
     ELSE Drain((X \ live) \cup
                UNION { { LET y == Rx(TakeFrom(x.s, f), f, x.s.inq[f][1])
                          IN R(y.s, x.log \o y.log) : f \in DOMAIN x.s.inq } : x \in live })
ProcIn(s) == { IF DOMAIN x.s.inq = {} THEN R(AgeMembers(x.s), x.log) ELSE x : x \in Drain({R(s, <<>>)}) }

Joined(s) == {id \in DOMAIN s.sw : s.sw[id]}
ProcOut(s) ==
  LET c == IF s.cnt > 0 THEN s.cnt - 1 ELSE 0
  IN IF c = 0 /\ DOMAIN s.sw # {}
     THEN [s EXCEPT !.cnt = Period, !.out = AppendL(@, Joined(s))]
     ELSE [s EXCEPT !.cnt = c]
=============================================================================
