----------------------------- MODULE RobotTrace -----------------------------
(***************************************************************************)
(* Validates recordings of the real library against Robot.tla.            *)
(*                                                                         *)
(* TRACES (environment) names a JSON file: a list of traces, each          *)
(* [robots |-> <<ids>>, ops |-> <<op records>>]; an op carries its         *)
(* arguments and, in the field obs, what the real robot showed.            *)
(*                                                                         *)
(* The only non-determinism of the specification is the order in which a   *)
(* processing call visits the senders, so a state of the checker is the    *)
(* set W of all worlds compatible with the trace so far; a trace is        *)
(* rejected at the first op that empties W.                                *)
(***************************************************************************)
EXTENDS RobotStep, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid, pos, W
vars == <<tid, pos, W>>

Ops == Traces[tid].ops
After == LET op == Ops[pos]
         IN UNION { {x.w : x \in {y \in Step(w, op) : Agree(op, y.obs, op.obs)}} : w \in W }
\* what the specification would have allowed, for the report
Wanted == LET op == Ops[pos] IN UNION { {y.obs : y \in Step(w, op)} : w \in W }

Init == /\ tid \in 1..Len(Traces)
        /\ pos = 1
        /\ W = {World(Traces[tid].robots)}

Next == /\ pos <= Len(Ops)
        /\ W # {}
        /\ W' = After
        /\ pos' = pos + 1
        /\ tid' = tid
        /\ IF W' = {} THEN PrintT(<<"REJECT", tid, pos, ToString(Wanted)>>)
           ELSE IF pos' > Len(Ops) THEN PrintT(<<"ACCEPT", tid>>)
           ELSE TRUE

Spec == Init /\ [][Next]_vars
=============================================================================
