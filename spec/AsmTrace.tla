------------------------------ MODULE AsmTrace ------------------------------
(* What the assembler, the disassembler, the compiler and the debug        *)
(* information did, against Asm.tla.                                       *)
EXTENDS Asm, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, pos, code, d, ok
vars == <<tid, pos, code, d, ok>>
T == Traces[tid]
Set(q) == {q[i] : i \in 1..Len(q)}
OffSet(x) == {<<o>> \o x.off[o] : o \in DOMAIN x.off}
\* <<good?, code afterwards, debug information afterwards>>
Do(e) ==
  CASE e.e = "asm" -> LET a == Assemble(e.lines)
                          x == DebugOf(IF a.ok THEN a.dbg ELSE <<>>)
                      IN IF ~a.ok THEN <<e.rc # 0, <<>>, NoDebug>> ELSE <<e.rc = 0 /\ CodeOk(a, e.bytes) /\ Set(e.dbg) = OffSet(x), e.bytes, x>>
    [] e.e = "list" -> <<e.rc = 0 /\ ListingOk(e.lines, code, d), code, d>>
    [] e.e = "again" -> <<e.rc = 0 /\ e.bytes = code, code, d>>
    [] e.e = "one" -> <<e.off \in Offsets(code, CodeStart(code, code[1] + 256 * code[2])) /\ InstrOk(e.text, code, e.off, "", ""), code, d>>
    [] e.e = "compiled" -> <<Placed(T.files, T.main, e.bytes, Set(e.dbg)), e.bytes, DebugOf(e.dbg)>>
    [] e.e = "new" -> <<TRUE, code, NoDebug>>
    [] e.e = "set" -> <<TRUE, code, DSet(d, e.x)>>
    [] e.e = "off" -> <<e.r = (IF e.o \in DOMAIN d.off THEN d.off[e.o] ELSE <<>>), code, d>>
    [] e.e = "pos" -> <<e.r = (IF e.p \in DOMAIN d.pos THEN d.pos[e.p] ELSE -1), code, d>>
    [] e.e = "file" -> <<e.w = 1 /\ e.r = 1 /\ Set(e.dbg) = OffSet(d), code, Saved(d)>>
Init == tid \in 1..Len(Traces) /\ pos = 1 /\ ok = TRUE /\ code = <<>> /\ d = NoDebug
Next == /\ pos <= Len(T.ev) /\ ok
        /\ LET r == Do(T.ev[pos])
           IN /\ ok' = r[1] /\ code' = r[2] /\ d' = r[3]
              /\ IF ~r[1] THEN PrintT(<<"REJECT", tid, pos, T.ev[pos].e>>)
                 ELSE IF pos >= Len(T.ev) THEN PrintT(<<"ACCEPT", tid>>) ELSE TRUE
        /\ pos' = pos + 1 /\ tid' = tid
Spec == Init /\ [][Next]_vars
=============================================================================
