-------------------------------- MODULE Cont --------------------------------
(***************************************************************************)
(* The containers the machine is built from, as the mathematical objects   *)
(* they stand for:                                                         *)
(*   "da"  dynamic array  -- a sequence of elements                        *)
(*   "di"  dictionary     -- a finite map key -> element                   *)
(*   "se"  set            -- a finite map key -> element (first one stays) *)
(*   "sm"  string manager -- a finite injection text -> id                 *)
(* Elements are named by uids, so that a copy, a loss or a second          *)
(* destruction of an element is visible.                                   *)
(* A step yields the next container state, the elements that leave it (and *)
(* must be handed to the destructor exactly once) and a result.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
Rng(q) == {q[i] : i \in 1..Len(q)}
None == [none |-> TRUE]
R(s, gone, ret) == [s |-> s, gone |-> gone, ret |-> ret]
(*------------------------------- sequences ------------------------------*)
InsertAtPos(q, p, u) == LET i == IF p < Len(q) THEN p ELSE Len(q)       \* 0-based; past the end: append
                        IN SubSeq(q, 1, i) \o <<u>> \o SubSeq(q, i + 1, Len(q))
DropAt(q, p) == SubSeq(q, 1, p) \o SubSeq(q, p + 2, Len(q))
FindPos(q, u) == IF u \in Rng(q) THEN (CHOOSE i \in 1..Len(q) : q[i] = u /\ \A j \in 1..(i - 1) : q[j] # u) - 1 ELSE Len(q)
Da(q, op) ==
  CASE op.op = "new"   -> R(<<>>, <<>>, None)
    [] op.op = "buf"   -> R(op.us, <<>>, None)
    [] op.op \in {"ins", "slot"} -> R(InsertAtPos(q, op.pos, op.u), <<>>, None)
    [] op.op = "push"  -> R(Append(q, op.u), <<>>, None)
    [] op.op = "pop"   -> IF q = <<>> THEN R(q, <<>>, None) ELSE R(Front(q), <<Last(q)>>, None)
    [] op.op = "rem"   -> IF op.pos >= Len(q) THEN R(q, <<>>, None) ELSE R(DropAt(q, op.pos), <<q[op.pos + 1]>>, None)
    [] op.op = "clear" -> R(<<>>, q, None)
    [] op.op = "set"   -> R([q EXCEPT ![op.pos + 1] = op.u], <<>>, None)     \* the old element stays the caller's
    [] op.op = "find"  -> R(q, <<>>, FindPos(q, op.u))
    [] op.op = "sort"  -> R(SortSeq(q, LAMBDA a, b : a < b), <<>>, None)
    [] op.op = "clone" -> R(q, <<>>, None)
    [] op.op = "free"  -> R(None, q, None)
(*--------------------------------- maps ---------------------------------*)
Empty == [k \in {} |-> 0]
Del(m, k) == [j \in DOMAIN m \ {k} |-> m[j]]
Vals(m) == SetToSeq({<<k, m[k]>> : k \in DOMAIN m})
AllVals(m) == [i \in 1..Len(Vals(m)) |-> Vals(m)[i][2]]
Di(m, op) ==
  CASE op.op = "new"  -> R(Empty, <<>>, None)
    [] op.op = "set"  -> R((op.k :> op.u) @@ m, IF op.k \in DOMAIN m THEN <<m[op.k]>> ELSE <<>>, None)
    [] op.op = "rem"  -> IF op.k \in DOMAIN m THEN R(Del(m, op.k), <<m[op.k]>>, 1) ELSE R(m, <<>>, 0)
    [] op.op = "get"  -> R(m, <<>>, IF op.k \in DOMAIN m THEN m[op.k] ELSE -1)
    [] op.op = "free" -> R(None, AllVals(m), None)
Se(m, op) ==
  CASE op.op = "new"  -> R(Empty, <<>>, None)
    [] op.op = "ins"  -> R(IF op.k \in DOMAIN m THEN m ELSE (op.k :> op.u) @@ m, <<>>, None)
    [] op.op = "rem"  -> IF op.k \in DOMAIN m THEN R(Del(m, op.k), <<m[op.k]>>, None) ELSE R(m, <<>>, None)
    [] op.op = "get"  -> R(m, <<>>, IF op.k \in DOMAIN m THEN m[op.k] ELSE -1)
    [] op.op = "free" -> R(None, AllVals(m), None)
Eval(kind, s, op) == CASE kind = "da" -> Da(s, op) [] kind = "di" -> Di(s, op) [] OTHER -> Se(s, op)

(*---------------------------- string manager ----------------------------*)
\* ids: text -> id (injective); prot: protected texts; doomed: texts that the
\* next sweep takes unless they are marked or protected before
NewSm == [ids |-> Empty, prot |-> {}, doomed |-> {}]
Texts(m) == DOMAIN m.ids
TextOf(m, id) == {t \in Texts(m) : m.ids[t] = id}
\* registering: the id the text has, or any id that nothing else has
RegOk(m, t, id) == IF t \in Texts(m) THEN id = m.ids[t] ELSE TextOf(m, id) = {}
Reg(m, t, id, protect) ==
  [m EXCEPT !.ids = IF t \in Texts(m) THEN @ ELSE (t :> id) @@ @,
            !.prot = IF protect THEN @ \cup {t} ELSE @]
ClearMarks(m) == [m EXCEPT !.doomed = @ \cup (Texts(m) \ m.prot)]
Mark(m, id) == [m EXCEPT !.doomed = @ \ TextOf(m, id)]
Prune(m) == LET dead == m.doomed \ m.prot
            IN [ids |-> [t \in Texts(m) \ dead |-> m.ids[t]], prot |-> m.prot, doomed |-> {}]
RECURSIVE MarkAll(_, _)
MarkAll(m, q) == IF q = <<>> THEN m ELSE MarkAll(Mark(m, Head(q)), Tail(q))
\* rounds of short-lived strings and collections, with the same marks each time
Burn(m, marks) == Prune(MarkAll(ClearMarks(m), marks))
SmInjective(m) == \A a, b \in Texts(m) : m.ids[a] = m.ids[b] => a = b
=============================================================================
