------------------------------ MODULE ContGen -------------------------------
(***************************************************************************)
(* Every history of operations over a small alphabet up to a depth; the    *)
(* histories are printed and replayed against the real containers.  An     *)
(* element inserted by the n-th operation has uid n.                       *)
(* GEN names a JSON file: kind, alphabet, depth.                           *)
(***************************************************************************)
EXTENDS Cont, Json, IOUtils
Conf == JsonDeserialize(IOEnv.GEN)
Alpha == Conf.alphabet
VARIABLES s, h, gone, over
vars == <<s, h, gone, over>>
WithU(op) == IF "u" \in DOMAIN op THEN [op EXCEPT !.u = IF op.op = "find" THEN @ ELSE Len(h) + 1] ELSE op
Enabled1(op) == op.op = "set" /\ Conf.kind = "da" => op.pos < Len(s)
Init == s = Eval(Conf.kind, None, [op |-> "new"]).s /\ h = <<>> /\ gone = <<>> /\ over = {}
Next == /\ Len(h) < Conf.depth
        /\ \E i \in 1..Len(Alpha) :
             LET op == WithU(Alpha[i])
                 r == Eval(Conf.kind, s, op)
             IN /\ Enabled1(op)
                /\ s' = r.s /\ gone' = gone \o r.gone /\ h' = Append(h, i)
                /\ over' = IF op.op = "set" /\ Conf.kind = "da" THEN over \cup {s[op.pos + 1]}
                           ELSE IF op.op = "ins" /\ Conf.kind = "se" /\ op.k \in DOMAIN s THEN over \cup {op.u} ELSE over
                /\ (Len(h') = Conf.depth => PrintT(<<"H", ToString(h')>>))
Spec == Init /\ [][Next]_vars
\* every element put in is in exactly one place, and leaves at most once
Held == IF Conf.kind = "da" THEN Rng(s) ELSE {s[k] : k \in DOMAIN s}
PutIn == {i \in 1..Len(h) : "u" \in DOMAIN Alpha[h[i]] /\ Alpha[h[i]].op # "find"}
Accounted == /\ \A i, j \in 1..Len(gone) : gone[i] = gone[j] => i = j
             /\ Rng(gone) \cap Held = {}
             /\ PutIn = Held \cup Rng(gone) \cup over
             /\ (Conf.kind = "da" => \A i, j \in 1..Len(s) : s[i] = s[j] => i = j)
=============================================================================
