------------------------------- MODULE Instr --------------------------------
(* The instruction set: names in the order of their codes, and how         *)
(* arguments are written.  A code c has c.code, a sequence of bytes.       *)
EXTENDS Arith
Plain == <<"nop", "done", "pushnil", "dup", "pop", "ret0", "ret1", "add", "sub", "mul", "div", "mod", "pow", "unm", "land", "lor", "lnot",
           "band", "bor", "bnot", "lshift", "rshift", "eq", "neq", "gt", "gte", "lt", "lte", "gload", "gstore", "pusht", "tput", "tget", "callc", "calls",
           "pushf", "pushi", "pushs", "pushcn", "pushcc", "pushl", "lload", "lstore", "lremove", "jump", "jumpz", "jumpnz">>
FirstWithArg == 36
Op(c, pc) == LET b == c.code[pc + 1] IN IF b + 1 > Len(Plain) THEN "unknown" ELSE Plain[b + 1]
Size(c) == Len(c.code)
Byte(c, p) == c.code[p + 1]
\* little-endian two's complement
Arg(c, p) == LET hi == Byte(c, p + 3)
             IN (Byte(c, p) + 256 * Byte(c, p + 1) + 65536 * Byte(c, p + 2)) + 16777216 * (IF hi > 127 THEN hi - 256 ELSE hi)
\* IEEE 754 single precision
ArgF(c, p) == LET hi == Byte(c, p + 3)
                  ex == 2 * (hi % 128) + Byte(c, p + 2) \div 128
                  fr == Byte(c, p) + 256 * Byte(c, p + 1) + 65536 * (Byte(c, p + 2) % 128)
                  sg == IF hi > 127 THEN -1 ELSE 1
              IN IF ex = 255 THEN (IF fr = 0 THEN <<"f", sg, 999>> ELSE <<"f", 3, 999>>)
                 ELSE IF ex = 0 THEN Odd(sg * fr, -149)
                 ELSE Odd(sg * (fr + 8388608), ex - 150)
=============================================================================
