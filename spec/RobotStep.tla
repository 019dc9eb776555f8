----------------------------- MODULE RobotStep -----------------------------
(***************************************************************************)
(* Several robots and messages in flight, one operation at a time: what    *)
(* each operation of a script or of the embedding program does (Step) and  *)
(* what it shows.  Shared by the trace checker and the closed models.      *)
(***************************************************************************)
EXTENDS Robot

Rng(q) == {q[i] : i \in 1..Len(q)}
World(robots) == [rs |-> [r \in Rng(robots) |-> InitRobot(r)], slots |-> <<>>]

NoMsg == [t |-> "none"]
\* a message as recorded: list ids come as a sequence
Norm(m) == IF m.t = "L" THEN [t |-> "L", ids |-> Rng(m.ids)] ELSE m

Upd(w, r, s) == [w EXCEPT !.rs[r] = s]

\* result of a script-level operation on robot op.r
Script(w, op) ==
  LET r == op.r
      s == w.rs[r]
      D(s2, log) == {[w |-> Upd(w, r, s2), obs |-> [st |-> s2.st, log |-> log]]}
  IN IF s.st # "ready" THEN {[w |-> w, obs |-> [st |-> s.st, log |-> <<>>]]}
     ELSE CASE op.op = "create" -> D(VCreate(s, op.id), <<>>)
       [] op.op = "put" -> D(VPut(s, op.id, op.k, op.v), <<>>)
       [] op.op = "get" -> LET x == VGet(s, op.id, op.k) IN D(x.s, << <<x.log>> >>)
       [] op.op = "size" -> D(s, << <<I(VSize(s, op.id))>> >>)
       [] op.op = "all" -> D(s, SetToSeq(VAll(s, op.id)))
       [] op.op = "onconflict" -> D([s EXCEPT !.vs[op.id].oc = op.kind], <<>>)
       [] op.op = "onlost" -> D([s EXCEPT !.vs[op.id].ol = op.kind], <<>>)
       [] op.op = "screate" -> D(SCreate(s, op.id), <<>>)
       [] op.op = "sjoin" -> D(SJoin(s, op.id), <<>>)
       [] op.op = "sleave" -> D(SLeave(s, op.id), <<>>)
       [] op.op = "sselect" -> D(SSelect(s, op.id, op.b), <<>>)
       [] op.op = "sin" -> IF op.id \in DOMAIN s.sw
                           THEN D(s, << <<I(IF s.sw[op.id] THEN 1 ELSE 0)>> >>)
                           ELSE D(SError(s), <<>>)
       [] op.op = "sothers" -> D(SOthers(s, op.id, op.new), <<>>)
       [] op.op = "sunion" -> D(SUnion(s, op.new, op.a, op.b), <<>>)
       [] op.op = "sinter" -> D(SInter(s, op.new, op.a, op.b), <<>>)
       [] op.op = "sdiff" -> D(SDiff(s, op.new, op.a, op.b), <<>>)
       [] op.op = "exec" ->
            \* nested executes; the first unknown swarm is an error, the first
            \* one the robot is not in stops the descent
            LET st == op.stack
                stop == {i \in 1..Len(st) : ~InSw(s, st[i])}
                d == IF stop = {} THEN Len(st) ELSE (CHOOSE i \in stop : \A j \in stop : i <= j) - 1
                on == [i \in 1..d |-> <<"s:on", I(st[i])>>]
                off == [i \in 1..d |-> LET k == SubSeq(st, 1, d + 1 - i)
                                       IN <<"s:off", SwarmId(k, 1), SwarmId(k, 2)>>]
                fin == off \o << <<"s:end">> >>
            IN (IF stop # {}
               THEN IF st[d + 1] \in DOMAIN s.sw THEN D(s, on \o fin) ELSE D(SError(s), on)
               ELSE CASE op.body = "id" ->
                           D(s, on \o << <<"s:in", SwarmId(st, 1), SwarmId(st, 1), SwarmId(st, 2), SwarmId(st, 9)>> >> \o fin)
                      [] op.body \in {"kin", "kinof"} ->
                           D(s, on \o SetToSeq({<<"s:kin", I(x)>> : x \in Kin(s, st)}
                                               \cup {<<"s:nonkin", I(x)>> : x \in NonKin(s, st)}) \o fin)
                      [] op.body = "leave" ->
                           LET x == st[Len(st)] IN D(SLeave(s, x), on \o fin)
                      [] op.body = "join" ->
                           IF op.x \in DOMAIN s.sw THEN D(SJoin(s, op.x), on \o fin)
                           ELSE D(SError(s), on)
                      [] op.body = "err" -> D([s EXCEPT !.st = "error:6"], on))
       [] op.op = "sid" -> D(s, << <<NIL>> >>)
       [] op.op = "kin0" -> D(s, SetToSeq({<<"s:kin", I(x)>> : x \in s.nb}))
       [] op.op = "listen" -> D(Listen(s, op.topic, op.kind), <<>>)
       [] op.op = "ignore" -> D(Ignore(s, op.topic), <<>>)
       [] op.op = "bcast" -> D(Broadcast(s, op.topic, op.v), <<>>)
       [] op.op = "nop" -> D(s, <<>>)

Step(w, op) ==
  CASE op.op = "keep" ->
         LET s == w.rs[op.r]
             n == QSize(s.out)
             s2 == [s EXCEPT !.out = PopOut(@)]
             m == IF n = 0 THEN NoMsg ELSE First(s.out)
         IN {[w |-> [Upd(w, op.r, s2) EXCEPT !.slots = Put(@, op.slot, [from |-> op.r, m |-> m])],
              obs |-> [m |-> m, q |-> QSize(s2.out)]]}
    [] op.op = "peek" ->
         LET s == w.rs[op.r]
         IN {[w |-> w, obs |-> [m |-> IF QSize(s.out) = 0 THEN NoMsg ELSE First(s.out)]]}
    [] op.op = "give" ->
         LET k == w.slots[op.slot]
         IN {[w |-> IF k.m = NoMsg THEN w ELSE Upd(w, op.to, Arrive(w.rs[op.to], k.from, k.m)),
              obs |-> [ok |-> TRUE]]}
    [] op.op = "feed" ->           \* a message made up by the environment
         {[w |-> Upd(w, op.to, Arrive(w.rs[op.to], op.from, Norm(op.m))), obs |-> [ok |-> TRUE]]}
    [] op.op = "procin" ->
         {[w |-> Upd(w, op.r, x.s), obs |-> [st |-> x.s.st, log |-> x.log]] : x \in ProcIn(w.rs[op.r])}
    [] op.op = "procout" ->
         LET s2 == ProcOut(w.rs[op.r]) IN {[w |-> Upd(w, op.r, s2), obs |-> [q |-> QSize(s2.out)]]}
    [] op.op = "qsize" -> {[w |-> w, obs |-> [q |-> QSize(w.rs[op.r].out)]]}
    [] op.op = "nbrs" -> {[w |-> Upd(w, op.r, [w.rs[op.r] EXCEPT !.nb = Rng(op.ids)]), obs |-> [ok |-> TRUE]]}
    [] op.op = "members" ->
         {[w |-> w, obs |-> [in |-> {<<a, b>> \in Rng(op.robots) \X Rng(op.swarms) : b \in Known(w.rs[op.r], a)}]]}
    [] op.op = "agree" ->          \* after a complete exchange all robots hold the same entries
         {[w |-> w, obs |-> [ok |-> \A a, b \in Rng(op.robots) : w.rs[a].vs[op.id].e = w.rs[b].vs[op.id].e]]}
    [] OTHER -> Script(w, op)

\* does what the specification says (sp) agree with what was seen (ob)?
Unordered == {"all", "exec", "kin0"}
Agree(op, sp, ob) ==
  CASE op.op \in {"keep"} -> sp.m = Norm(ob.m) /\ sp.q = ob.q
    [] op.op = "peek" -> sp.m = Norm(ob.m)
    [] op.op \in {"give", "feed", "nbrs"} -> TRUE
    [] op.op = "agree" -> sp.ok
    [] op.op \in {"procout", "qsize"} -> sp.q = ob.q
    [] op.op = "members" -> sp.in = Rng(ob.in)
    [] op.op = "exec" /\ op.body \notin {"kin", "kinof"} -> sp.st = ob.st /\ sp.log = ob.log
    [] op.op \in Unordered -> sp.st = ob.st /\ Len(sp.log) = Len(ob.log) /\ Rng(sp.log) = Rng(ob.log)
    [] OTHER -> sp.st = ob.st /\ sp.log = ob.log
=============================================================================
