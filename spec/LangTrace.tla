----------------------------- MODULE LangTrace ------------------------------
(* Scripts that were compiled and run, against what they mean.             *)
(* Trace: files (name -> characters), main, data (pairs: name and text of  *)
(* files that lie beside it), libs (libraries it includes), ev.             *)
EXTENDS Lang, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, pos, s, ok, hs
vars == <<tid, pos, s, ok, hs>>
T == Traces[tid]
Evs == T.ev
Data == [x \in {T.data[i][1] : i \in 1..Len(T.data)} |-> T.data[CHOOSE i \in 1..Len(T.data) : T.data[i][1] = x][2]]
ToSt(w) == IF w.er # 0 THEN 3 ELSE 1
\* draws from one seed after one history give one value
Draws(w, v) == {<<w.log[i][j], v[i][j]>> : <<i, j>> \in {<<i, j>> \in (1..Len(w.log)) \X (1..8) : j <= Len(w.log[i]) /\ w.log[i][j][1] = "?" /\ Len(w.log[i][j]) = 5 /\ w.log[i][j][5][1][1] = "seed"}}
OneValued(ds) == \A a \in ds, b \in ds : a[1] = b[1] => a[2] = b[2]
LogOk(w, v) == Len(w.log) = Len(v) /\ (\A i \in 1..Len(v) : LikeAll(w.log[i], v[i])) /\ OneValued(Draws(w, v))
\* up to where a script becomes open its log is still known
Prefix(w, v) == Len(w.log) <= Len(v) /\ \A i \in 1..Len(w.log) : LikeAll(w.log[i], v[i])
Same(w, e, st) == IF w.wild THEN Prefix(w, e.log) ELSE LogOk(w, e.log) /\ e.st = st /\ (IF w.er = eSome THEN e.err # 0 ELSE e.err = w.er)
\* an error is reported at a line of the innermost statement being executed
Placed(w, e) == e.eat = <<>> \/ w.er = 0 \/ w.wild \/ w.at = <<>> \/ w.at[1] # w.at[3] \/ (e.eat[1] = w.at[1] /\ w.at[2] <= e.eat[2] /\ e.eat[2] <= w.at[4])
Refused(p, e) == e.rc # 0 /\ (e.at = p.at \/ e.at \in p.alt)
Good(p, w, e) ==
  CASE e.e = "load" -> IF ~p.ok THEN Refused(p, e) ELSE e.rc = 0 /\ Same(w, e, IF w.er # 0 THEN 3 ELSE 2) /\ Placed(w, e)
    [] e.e = "call" -> /\ Same(w, e, IF w.er # 0 THEN 3 ELSE 1) /\ (s.er = 0 => Placed(w, e))
                       /\ w.er = 0 /\ ~w.wild => e.grow = 1 /\ Like(Seen(w, w.val, <<>>), e.ret)
    \* live objects and strings: as many as without collections in between, and as before in the same state
    [] e.e = "heap" -> e.n = e.n0 /\ (s.wild \/ s.er # 0 \/ \A h \in hs : h[1] = Canon(s) => h[2] = e.n)
    [] e.e = "msg" -> Same(w, e, IF w.er # 0 THEN 3 ELSE 1) /\ (w.er = 0 /\ ~w.wild => e.grow = 0)
    \* a file as others see it, once it is closed
    [] e.e = "cat" -> s.wild \/ s.er # 0 \/ (\E i \in 1..Len(s.fh) : s.fh[i].n = e.name /\ s.fh[i].o) \/ e.text = (IF e.name \in DOMAIN s.fs THEN <<s.fs[e.name]>> ELSE <<>>)
    [] OTHER -> TRUE
\* e.log is what was seen
Act(p, e) ==
  CASE e.e = "load" -> IF p.ok THEN LoadIn(p, e.log, Data, T.libs) ELSE [wild |-> TRUE, er |-> 0, log |-> <<>>]
    [] e.e = "call" -> IF s.wild THEN [s EXCEPT !.log = <<>>]
                       ELSE LET r == HostCall(s, e.name, e.args, e.log) IN [val |-> r[1]] @@ [r[2] EXCEPT !.env = <<>>]
    [] e.e \in {"heap", "cat"} -> s
    [] e.e = "msg" -> IF s.wild THEN [s EXCEPT !.log = <<>>] ELSE [Hear(s, e.from, e.topic, e.v, e.log) EXCEPT !.env = <<>>]
    [] e.e = "nbrreset" -> IF Stop(s) THEN s ELSE NbrReset(s)
    [] e.e = "nbradd" -> IF Stop(s) THEN s ELSE NbrAdd(s, e.id, e.d, e.az, e.el)
Show(p, w, e) == IF e.e = "load" /\ ~p.ok THEN ToString(p) ELSE IF ~w.wild THEN ToString([log |-> w.log, er |-> w.er, at |-> w.at]) ELSE ToString([log |-> w.log, then |-> "open"])
Init == tid \in 1..Len(Traces) /\ pos = 1 /\ ok = TRUE /\ s = <<>> /\ hs = {}
Next == /\ pos <= Len(Evs) /\ ok
        /\ LET e == Evs[pos]
               p == IF e.e = "load" THEN Program(T.files, T.main) ELSE <<>>
               w == Act(p, e)
               good == Good(p, w, e)
           IN /\ ok' = good /\ s' = w
              /\ hs' = IF e.e = "heap" /\ e.keep /\ ~s.wild /\ s.er = 0 THEN hs \cup {<<Canon(s), e.n>>} ELSE hs
              /\ (IF w.wild /\ e.e \in {"load", "call", "msg"} /\ (e.e = "load" => p.ok) THEN PrintT(<<"OPEN", tid, pos, Len(w.log), IF e.e = "load" THEN Len(e.log) ELSE 0>>) ELSE TRUE)
              /\ IF ~good THEN PrintT(<<"REJECT", tid, pos, Show(p, w, e)>>)
                 ELSE IF pos >= Len(Evs) THEN PrintT(<<"ACCEPT", tid>>) ELSE TRUE
        /\ pos' = pos + 1 /\ tid' = tid
Spec == Init /\ [][Next]_vars
=============================================================================
