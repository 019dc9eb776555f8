--------------------------------- MODULE Asm --------------------------------
(* Assembly text, bytecode, listings and debug information.                *)
(*                                                                         *)
(* Assemble(lines) is [ok, code, fl, dbg]: the bytes (0 where a float      *)
(* stands), the floats <<offset, value>>, the debug entries                *)
(* <<offset, line, col, file>>.  ListingOk(lines, code, dbg): the listing  *)
(* of a disassembled program.  Debug information d: off (offset -> place)  *)
(* and pos (place -> first offset), places <<line, col, file>>.            *)
EXTENDS Parse, Instr
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [c \in {SubSeq(Ascii, i, i) : i \in 1..95} |-> 31 + CHOOSE i \in 1..95 : SubSeq(Ascii, i, i) = c] @@ ("\t" :> 9) @@ ("\n" :> 10)
CharOf == [n \in {CodeOf[c] : c \in DOMAIN CodeOf} |-> CHOOSE c \in DOMAIN CodeOf : CodeOf[c] = n]
C(t, i) == IF i > Len(t) THEN "" ELSE SubSeq(t, i, i)
Space == {" ", "\t", "\n", "\r"}
RECURSIVE Skip(_, _, _), Find(_, _, _), TrimR(_)
Skip(t, i, cs) == IF i <= Len(t) /\ C(t, i) \in cs THEN Skip(t, i + 1, cs) ELSE i
Find(t, i, cs) == IF i > Len(t) \/ C(t, i) \in cs THEN i ELSE Find(t, i + 1, cs)
TrimR(t) == IF t # "" /\ C(t, Len(t)) \in Space THEN TrimR(SubSeq(t, 1, Len(t) - 1)) ELSE t
Rest(t, i) == SubSeq(t, i, Len(t))
\* the fields of a text between the separators
RECURSIVE Split(_, _)
Split(t, cs) == LET i == Find(t, 1, cs) IN IF i > Len(t) THEN <<t>> ELSE <<SubSeq(t, 1, i - 1)>> \o Split(Rest(t, i + 1), cs)
Bytes2(n) == <<n % 256, (n \div 256) % 256>>
Bytes4(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, (n \div 16777216) % 256>>
\* ---- the assembler, a line at a time
\* z: what is written so far, and whether a backslash is waiting for the next character
Unescaped(t) == LET step(z, c) == IF z[2] /\ c \in {"n", "\\"} THEN <<Append(z[1], IF c = "n" THEN 10 ELSE 92), FALSE>>
                                  ELSE LET o == IF z[2] THEN Append(z[1], 92) ELSE z[1]
                                       IN IF c = "\\" THEN <<o, TRUE>> ELSE <<Append(o, CodeOf[c]), FALSE>>
                    r == FoldLeft(step, <<<<>>, FALSE>>, [i \in 1..Len(t) |-> C(t, i)])
                IN IF \A i \in 1..Len(t) : C(t, i) # "\\" THEN [i \in 1..Len(t) |-> CodeOf[C(t, i)]]
                   ELSE IF r[2] THEN Append(r[1], 92) ELSE r[1]
IntText(t) == LET j == IF C(t, 1) \in {"+", "-"} THEN 2 ELSE 1 IN j <= Len(t) /\ Skip(t, j, Digits) = Len(t) + 1
IntOf(t) == LET j == IF C(t, 1) \in {"+", "-"} THEN 2 ELSE 1
            IN IF t = "-2147483648" THEN MinInt ELSE LET n == DecInt(Rest(t, j), 0) IN IF C(t, 1) = "-" THEN -n ELSE n
FloatOf(t) == LET j == IF C(t, 1) \in {"+", "-"} THEN 2 ELSE 1
                  b == Rest(t, j)
                  v == NumVal(IF DotAt(b, 1) = 0 THEN b \o "." ELSE b)
              IN IF C(t, 1) = "-" THEN FNeg(v) ELSE v
OpIx(n) == IF \E i \in 1..Len(Plain) : Plain[i] = n THEN CHOOSE i \in 1..Len(Plain) : Plain[i] = n ELSE 0
\* the first n - 1 fields and, as the last, all that follows
RECURSIVE Split1(_, _, _)
Split1(t, cs, n) == LET i == Find(t, 1, cs) IN IF n = 1 \/ i > Len(t) THEN <<t>> ELSE <<SubSeq(t, 1, i - 1)>> \o Split1(Rest(t, i + 1), cs, n - 1)
\* line, column, file: the file's name may hold any character of a line
Debug(z, t) == LET f == Split1(t, {","}, 3) IN IF Len(f) < 3 THEN z ELSE [z EXCEPT !.dbg = Append(@, <<Len(z.code), IntOf(f[1]), IntOf(f[2]), f[3]>>)]
Refer(z, l) == [z EXCEPT !.subs = @ \cup {<<Len(z.code), l>>}, !.code = @ \o <<0, 0, 0, 0>>]
Code1(z0, t) ==
  LET f == Split1(t, {"|"}, 2)
      z == IF Len(f) > 1 THEN Debug(z0, f[2]) ELSE z0
      w == Split(f[1], Space)
      i == OpIx(w[1])
      a == IF Len(w) > 1 THEN w[2] ELSE ""
      y == [z EXCEPT !.code = Append(@, i - 1)]
  IN IF i = 0 THEN [z EXCEPT !.ok = FALSE]
     ELSE IF i < FirstWithArg THEN y
     ELSE IF a = "" THEN [z EXCEPT !.ok = FALSE]
     ELSE IF Plain[i] \in {"jump", "jumpz", "jumpnz"} THEN Refer(y, a)
     ELSE IF i = FirstWithArg THEN [y EXCEPT !.fl = @ \cup {<<Len(y.code), FloatOf(a)>>}, !.code = @ \o <<0, 0, 0, 0>>]
     ELSE IF IntText(a) THEN [y EXCEPT !.code = @ \o Bytes4(IntOf(a))]
     ELSE Refer(y, a)
Line(z, l) ==
  LET t == Rest(l, Skip(l, 1, Space))
      u == TrimR(t)
  IN IF ~z.ok THEN z
     ELSE IF u = "" \/ C(u, 1) = "#" THEN z
     ELSE IF C(t, 1) = "'" THEN [z EXCEPT !.code = @ \o Unescaped(Rest(t, 2)) \o <<0>>]
     ELSE IF C(u, 1) = "!" THEN [z EXCEPT !.code = @ \o Bytes2(IntOf(Rest(u, 2)))]
     ELSE IF C(u, 1) = "@" THEN LET f == Split1(u, {"|"}, 2)
                                    y == IF Len(f) > 1 THEN Debug(z, f[2]) ELSE z
                                IN [y EXCEPT !.labs = (TrimR(f[1]) :> Len(z.code)) @@ @]
     ELSE Code1(z, u)
Assemble(lines) ==
  LET z == FoldLeft(Line, [ok |-> TRUE, code |-> <<>>, fl |-> {}, dbg |-> <<>>, labs |-> <<>>, subs |-> {}], lines)
      good == \A r \in z.subs : r[2] \in DOMAIN z.labs /\ z.labs[r[2]] < Len(z.code)
      At(r, i) == i \in r[1] + 1..r[1] + 4
      hit == UNION {r[1] + 1..r[1] + 4 : r \in z.subs}
      Sub(i) == LET r == CHOOSE r \in z.subs : At(r, i) IN Bytes4(z.labs[r[2]])[i - r[1]]
  IN IF ~z.ok \/ ~good THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE, code |-> [i \in 1..Len(z.code) |-> IF i \in hit THEN Sub(i) ELSE z.code[i]], fl |-> z.fl, dbg |-> z.dbg]
\* b: the bytes that were produced
CodeOk(a, b) == /\ Len(a.code) = Len(b)
                /\ LET fs == UNION {f[1] + 1..f[1] + 4 : f \in a.fl} IN \A i \in 1..Len(b) : i \in fs \/ a.code[i] = b[i]
                /\ \A f \in a.fl : Match(f[2], ArgF([code |-> b], f[1]))
\* ---- debug information
NoDebug == [off |-> <<>>, pos |-> <<>>]
DSet(d, e) == LET p == <<e[2], e[3], e[4]>>
              IN [off |-> (e[1] :> p) @@ d.off, pos |-> IF p \in DOMAIN d.pos /\ d.pos[p] <= e[1] THEN d.pos ELSE (p :> e[1]) @@ d.pos]
DebugOf(es) == FoldLeft(DSet, NoDebug, es)
\* what is left of it in a file
Saved(d) == LET ps == {d.off[o] : o \in DOMAIN d.off}
            IN [off |-> d.off, pos |-> [p \in ps |-> CHOOSE o \in {o \in DOMAIN d.off : d.off[o] = p} : \A q \in DOMAIN d.off : d.off[q] = p => o <= q]]
\* ---- disassembly
RECURSIVE JoinAll(_)
JoinAll(cs) == IF Len(cs) = 0 THEN "" ELSE IF Len(cs) = 1 THEN cs[1]
               ELSE LET h == Len(cs) \div 2 IN JoinAll(SubSeq(cs, 1, h)) \o JoinAll(SubSeq(cs, h + 1, Len(cs)))
\* where the first n strings end
StringEnds(c, n) == FoldLeft(LAMBDA z, i : IF i > 2 /\ c[i] = 0 /\ Len(z) <= n THEN Append(z, i) ELSE z, <<2>>, [i \in 1..Len(c) |-> i])
CodeStart(c, n) == StringEnds(c, n)[n + 1]
\* the first n strings, as lines
Strings(c, n) ==
  LET text(b) == IF b = 10 THEN "\\n" ELSE IF b = 92 THEN "\\\\" ELSE CharOf[b]
      ends == StringEnds(c, n)
  IN [k \in 1..n |-> "'" \o JoinAll([i \in 1..ends[k + 1] - ends[k] - 1 |-> text(c[ends[k] + i])])]
OffsetSeq(c, p0) ==                      \* where instructions begin
  FoldLeft(LAMBDA z, p : IF p # z[1] THEN z ELSE <<p + (IF c[p + 1] + 1 >= FirstWithArg THEN 5 ELSE 1), Append(z[2], p)>>, <<p0, <<>>>>, [i \in 1..Len(c) |-> i - 1])[2]
Offsets(c, p0) == Range(OffsetSeq(c, p0))
\* the text of the instruction at p: <<before the number, number or "", float?>>
Text(c, p) == LET n == Plain[c[p + 1] + 1]
              IN IF c[p + 1] + 1 < FirstWithArg THEN <<n, "", FALSE>>
                 ELSE IF c[p + 1] + 1 = FirstWithArg THEN <<n \o " ", "", TRUE>>
                 ELSE <<n \o " ", ToString(Arg([code |-> c], p + 1)), FALSE>>
Place(d, p) == IF p \notin DOMAIN d.off THEN "" ELSE LET e == d.off[p] IN "\t|" \o ToString(e[1]) \o "," \o ToString(e[2]) \o "," \o e[3]
Starts(t, x) == Len(t) >= Len(x) /\ SubSeq(t, 1, Len(x)) = x
Ends(t, x) == Len(t) >= Len(x) /\ SubSeq(t, Len(t) + 1 - Len(x), Len(t)) = x
InstrOk(t, c, p, pre, post) ==
  LET x == Text(c, p)
  IN IF x[3] THEN Starts(t, pre \o x[1]) /\ Ends(t, post) /\ Len(t) > Len(pre \o x[1] \o post) ELSE t = pre \o x[1] \o x[2] \o post
ListingOk(ls, c, d) ==
  LET n == c[1] + 256 * c[2]
      st == Strings(c, n)
      offs == OffsetSeq(c, CodeStart(c, n))
  IN /\ Len(ls) = 1 + n + Len(offs)
     /\ ls[1] = "!" \o ToString(n)
     /\ \A i \in 1..n : ls[i + 1] = st[i]
     /\ \A i \in 1..Len(offs) : InstrOk(ls[1 + n + i], c, offs[i], ToString(offs[i]) \o ":\t", Place(d, offs[i]))
\* ---- a compiled script: every instruction of it has the place of one of its tokens
Placed(files, main, c, es) ==
  LET l == Lex(files, main).toks
      n == c[1] + 256 * c[2]
      offs == Offsets(c, CodeStart(c, n))
      seen == {e[1] : e \in es}
      first == CHOOSE p \in offs : c[p + 1] = 0 /\ \A q \in offs : c[q + 1] = 0 => p <= q      \* functions are registered before the first nop
      toks == {<<l[i][4], l[i][5], l[i][3]>> : i \in 1..Len(l)}
      loose == {<<l[i][4], l[i][3]>> : i \in {i \in 1..Len(l) : l[i][5] < 0}}
  IN /\ (\E i \in 1..Len(l) : l[i][1] \notin {"end", "eof"}) => \A p \in offs : p > first => p \in seen
     /\ \A e \in es : e[1] \in offs /\ (<<e[2], e[3], e[4]>> \in toks \/ <<e[2], e[4]>> \in loose)
=============================================================================
