------------------------------- MODULE SmGen --------------------------------
(***************************************************************************)
(* Closed model of the string manager: every history of registrations,     *)
(* protections, marks and sweeps over a few texts, with ids picked freely  *)
(* among the unused ones of a small pool.  Histories are printed for       *)
(* replay (GEN: alphabet, depth).                                          *)
(***************************************************************************)
EXTENDS Cont, Json, IOUtils
Conf == JsonDeserialize(IOEnv.GEN)
Alpha == Conf.alphabet
Ids == 0..3
VARIABLES m, h, ever
vars == <<m, h, ever>>
Init == m = NewSm /\ h = <<>> /\ ever = {}
Next == /\ Len(h) < Conf.depth
        /\ \E i \in 1..Len(Alpha) :
             LET op == Alpha[i]
                 free == {x \in Ids : RegOk(m, op.t, x)}
             IN /\ CASE op.op = "reg" -> \E x \in {Min(free)} : m' = Reg(m, op.t, x, op.protect)
                     [] op.op = "mark" -> op.t \in Texts(m) /\ m' = Mark(m, m.ids[op.t])
                     [] op.op = "clear" -> m' = ClearMarks(m)
                     [] op.op = "prune" -> m' = Prune(m)
                /\ ever' = ever \cup m'.prot
                /\ h' = Append(h, i)
                /\ (Len(h') = Conf.depth => PrintT(<<"H", ToString(h')>>))
Spec == Init /\ [][Next]_vars
Injective == SmInjective(m)
\* what was ever protected is still there (P15)
Protected == ever \subseteq Texts(m)
\* an id keeps denoting its text until a sweep takes it
Stable == [][\A t \in Texts(m) \cap Texts(m') : m.ids[t] = m'.ids[t]]_vars
=============================================================================
