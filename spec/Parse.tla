------------------------------- MODULE Parse --------------------------------
(* The grammar of Buzz: tokens to syntax trees.                            *)
(*                                                                         *)
(* Every parsing operator takes the tokens and a position and returns      *)
(* <<tree, next position>>, or <<<<"wrong", p>>, 0>> when the token at p   *)
(* cannot stand there.  Statement ends matter only after return; they have *)
(* been left out of the token sequence, and a return that is followed by   *)
(* one has kind "return;".                                                 *)
(*                                                                         *)
(* Expressions: <<"const",v>> <<"id",x>> <<"bin",op,a,b>> <<"un",op,a>>    *)
(*   <<"tab",<<<<key,e>>,..>>>> <<"lam",params,stats>> <<"idx",e,k>>       *)
(*   <<"call",e,args>>.                                                    *)
(* Statements: <<"var",x,e or <<>>,p>> <<"fun",x,params,stats,p>>          *)
(*   <<"if",c,s,s>> <<"for",s,c,s,s>> <<"while",c,s>> <<"ret",e or <<>>>>  *)
(*   <<"asg",e,e>> <<"do",e>> <<"block",stats>> <<"skip">>                 *)
(*   <<"at",<<file,line,file,line>>,statement>>: where it begins and ends  *)
EXTENDS Arith, Lex
Wr(p) == <<<<"wrong", p>>, 0>>
Bad(r) == r[2] = 0
K(t, p) == t[p][1]
X(t, p) == t[p][2]
DigitVal == [d \in Digits |-> CHOOSE n \in 0..9 : ToString(n) = d]
RECURSIVE DecInt(_, _)                   \* -1: too large to be told here
DecInt(s, acc) == IF s = "" THEN acc
                  ELSE IF SubSeq(s, 1, 1) = "." THEN DecInt(SubSeq(s, 2, Len(s)), acc)
                  ELSE LET d == DigitVal[SubSeq(s, 1, 1)]
                       IN IF acc > (MaxInt - d) \div 10 THEN -1 ELSE DecInt(SubSeq(s, 2, Len(s)), 10 * acc + d)
RECURSIVE DotAt(_, _)
DotAt(s, i) == IF i > Len(s) THEN 0 ELSE IF SubSeq(s, i, i) = "." THEN i ELSE DotAt(s, i + 1)
RECURSIVE Pow10(_)
Pow10(k) == IF k = 0 THEN 1 ELSE 10 * Pow10(k - 1)
\* the float nearest to n / 10^k
Decimal(n, k) == IF n = -1 \/ k > 8 \/ n > P2[30] THEN AnyF
                 ELSE IF n = 0 THEN <<"f", 0, 0>>
                 ELSE LET d == Pow10(k)
                          l == LongDiv(n % d, d, n \div d, 0)
                          q == IF l[2] = 0 THEN l[1] ELSE IF (l[1] % 2) = 0 THEN l[1] + 1 ELSE l[1]
                      IN Round(q, -l[3])
NumVal(s) == LET p == DotAt(s, 1)
                 n == DecInt(s, 0)
             IN IF p = 0 THEN (IF n = -1 THEN AnyI ELSE I(n)) ELSE Decimal(n, Len(s) - p)
\* ---- lists
RECURSIVE Ids(_, _, _)                   \* parameters, from the first id on up to before ")"
Ids(t, p, acc) == IF K(t, p) # "id" THEN Wr(p)
                  ELSE IF K(t, p + 1) = "," THEN Ids(t, p + 2, Append(acc, X(t, p))) ELSE <<Append(acc, X(t, p)), p + 1>>
Params(t, p) ==                          \* from "(" to behind ")"
  IF K(t, p) # "(" THEN Wr(p)
  ELSE IF K(t, p + 1) = ")" THEN <<<<>>, p + 2>>
  ELSE LET r == Ids(t, p + 1, <<>>) IN IF Bad(r) THEN r ELSE IF K(t, r[2]) # ")" THEN Wr(r[2]) ELSE <<r[1], r[2] + 1>>
RECURSIVE CondRest(_, _, _, _), Entries(_, _, _, _), SumRest(_, _, _, _), ProdRest(_, _, _, _), ModRest(_, _, _, _), ShiftRest(_, _, _, _), BitsRest(_, _, _, _), RefRest(_, _, _, _), Args(_, _, _, _)
Cond(F, t, p) ==
  IF K(t, p) = "not" THEN LET r == F["Cond", p + 1] IN IF Bad(r) THEN r ELSE <<<<"un", "lnot", r[1]>>, r[2]>>
  ELSE LET r == F["Compar", p] IN IF Bad(r) THEN r ELSE CondRest(F, t, r[2], r[1])
CondRest(F, t, p, a) ==
  IF K(t, p) # "andor" THEN <<a, p>>
  ELSE LET r == F["Compar", p + 1] IN IF Bad(r) THEN r ELSE CondRest(F, t, r[2], <<"bin", IF X(t, p) = "and" THEN "land" ELSE "lor", a, r[1]>>)
CmpName == [x \in {"==", "!=", "<", "<=", ">", ">="} |-> CASE x = "==" -> "eq" [] x = "!=" -> "neq" [] x = "<" -> "lt" [] x = "<=" -> "lte" [] x = ">" -> "gt" [] OTHER -> "gte"]
Compar(F, t, p) ==
  LET a == F["Expr", p]
  IN IF Bad(a) \/ K(t, a[2]) # "cmp" THEN a
     ELSE LET b == F["Expr", a[2] + 1] IN IF Bad(b) THEN b ELSE <<<<"bin", CmpName[X(t, a[2])], a[1], b[1]>>, b[2]>>
\* table literal entries, from "." on
Entries(F, t, p, acc) ==
  IF K(t, p) # "." THEN Wr(p)
  ELSE IF K(t, p + 1) \notin {"id", "num"} THEN Wr(p + 1)
  ELSE IF K(t, p + 2) # "=" THEN Wr(p + 2)
  ELSE LET e == F["Expr", p + 3]
           k == IF K(t, p + 1) = "id" THEN S(X(t, p + 1)) ELSE NumVal(X(t, p + 1))
       IN IF Bad(e) THEN e
          ELSE IF K(t, e[2]) = "," THEN Entries(F, t, e[2] + 1, Append(acc, <<k, e[1]>>))
          ELSE <<Append(acc, <<k, e[1]>>), e[2]>>
Expr(F, t, p) ==
  IF K(t, p) = "{" THEN
     IF K(t, p + 1) = "}" THEN <<<<"tab", <<>>>>, p + 2>>
     ELSE LET r == Entries(F, t, p + 1, <<>>)
          IN IF Bad(r) THEN r ELSE IF K(t, r[2]) # "}" THEN Wr(r[2]) ELSE <<<<"tab", r[1]>>, r[2] + 1>>
  ELSE LET r == F["Prod", p] IN IF Bad(r) THEN r ELSE SumRest(F, t, r[2], r[1])
SumRest(F, t, p, a) ==
  IF K(t, p) # "sign" THEN <<a, p>>
  ELSE LET r == F["Prod", p + 1] IN IF Bad(r) THEN r ELSE SumRest(F, t, r[2], <<"bin", IF X(t, p) = "+" THEN "add" ELSE "sub", a, r[1]>>)
Prod(F, t, p) == LET r == F["Modulo", p] IN IF Bad(r) THEN r ELSE ProdRest(F, t, r[2], r[1])
ProdRest(F, t, p, a) ==
  IF K(t, p) # "muldiv" THEN <<a, p>>
  ELSE LET r == F["Modulo", p + 1] IN IF Bad(r) THEN r ELSE ProdRest(F, t, r[2], <<"bin", IF X(t, p) = "*" THEN "mul" ELSE "div", a, r[1]>>)
Modulo(F, t, p) == LET r == F["Power", p] IN IF Bad(r) THEN r ELSE ModRest(F, t, r[2], r[1])
ModRest(F, t, p, a) == IF K(t, p) # "%" THEN <<a, p>>
                    ELSE LET r == F["Power", p + 1] IN IF Bad(r) THEN r ELSE ModRest(F, t, r[2], <<"bin", "mod", a, r[1]>>)
Power(F, t, p) == LET a == F["ShiftE", p]
               IN IF Bad(a) \/ K(t, a[2]) # "^" THEN a
                  ELSE LET b == F["Power", a[2] + 1] IN IF Bad(b) THEN b ELSE <<<<"bin", "pow", a[1], b[1]>>, b[2]>>
ShiftE(F, t, p) == LET r == F["BitsE", p] IN IF Bad(r) THEN r ELSE ShiftRest(F, t, r[2], r[1])
ShiftRest(F, t, p, a) == IF K(t, p) # "shift" THEN <<a, p>>
                      ELSE LET r == F["BitsE", p + 1] IN IF Bad(r) THEN r ELSE ShiftRest(F, t, r[2], <<"bin", IF X(t, p) = "<<" THEN "lshift" ELSE "rshift", a, r[1]>>)
BitsE(F, t, p) == LET r == F["BNotE", p] IN IF Bad(r) THEN r ELSE BitsRest(F, t, r[2], r[1])
BitsRest(F, t, p, a) == IF K(t, p) # "bits" THEN <<a, p>>
                     ELSE LET r == F["BNotE", p + 1] IN IF Bad(r) THEN r ELSE BitsRest(F, t, r[2], <<"bin", IF X(t, p) = "&" THEN "band" ELSE "bor", a, r[1]>>)
BNotE(F, t, p) == IF K(t, p) = "!" THEN LET r == F["BNotE", p + 1] IN IF Bad(r) THEN r ELSE <<<<"un", "bnot", r[1]>>, r[2]>>
               ELSE F["Operand", p]
Operand(F, t, p) ==
  CASE K(t, p) = "function" ->
         LET a == Params(t, p + 1)
         IN IF Bad(a) THEN a ELSE LET b == F["Block", a[2]] IN IF Bad(b) THEN b ELSE <<<<"lam", a[1], b[1][2]>>, b[2]>>
    [] K(t, p) = "nil" -> <<<<"const", Nil>>, p + 1>>
    [] K(t, p) = "num" -> <<<<"const", NumVal(X(t, p))>>, p + 1>>
    [] K(t, p) = "str" -> <<<<"const", S(X(t, p))>>, p + 1>>
    [] K(t, p) = "(" -> LET r == F["Cond", p + 1] IN IF Bad(r) THEN r ELSE IF K(t, r[2]) # ")" THEN Wr(r[2]) ELSE <<r[1], r[2] + 1>>
    [] K(t, p) = "sign" ->
         IF K(t, p + 1) = "num" THEN <<<<"const", IF X(t, p) = "-" THEN Neg(NumVal(X(t, p + 1))) ELSE NumVal(X(t, p + 1))>>, p + 2>>
         ELSE LET r == F["Power", p + 1] IN IF Bad(r) THEN r ELSE IF X(t, p) = "-" THEN <<<<"un", "unm", r[1]>>, r[2]>> ELSE r
    [] OTHER -> F["Ref", p]
Ref(F, t, p) == IF K(t, p) # "id" THEN Wr(p) ELSE RefRest(F, t, p + 1, <<"id", X(t, p)>>)
RefRest(F, t, p, a) ==
  CASE K(t, p) = "." -> IF K(t, p + 1) # "id" THEN Wr(p + 1) ELSE RefRest(F, t, p + 2, <<"idx", a, <<"const", S(X(t, p + 1))>>>>)
    [] K(t, p) = "[" -> LET r == F["Expr", p + 1] IN IF Bad(r) THEN r ELSE IF K(t, r[2]) # "]" THEN Wr(r[2]) ELSE RefRest(F, t, r[2] + 1, <<"idx", a, r[1]>>)
    [] K(t, p) = "(" -> LET r == IF K(t, p + 1) = ")" THEN <<<<>>, p + 1>> ELSE Args(F, t, p + 1, <<>>)
                        IN IF Bad(r) THEN r ELSE IF K(t, r[2]) # ")" THEN Wr(r[2]) ELSE RefRest(F, t, r[2] + 1, <<"call", a, r[1]>>)
    [] OTHER -> <<a, p>>
Args(F, t, p, acc) == LET r == F["Cond", p]
                   IN IF Bad(r) THEN r ELSE IF K(t, r[2]) = "," THEN Args(F, t, r[2] + 1, Append(acc, r[1])) ELSE <<Append(acc, r[1]), r[2]>>
\* ---- statements
Stats(F, t, p) == IF K(t, p) \in {"eof", "}"} THEN <<<<>>, p>>
                  ELSE LET r == F["Stat", p]
                           m == F["Stats", r[2]]
                       IN IF Bad(r) THEN r ELSE IF Bad(m) THEN m ELSE <<<<r[1]>> \o m[1], m[2]>>
Block(F, t, p) ==
  IF K(t, p) # "{" THEN Wr(p)
  ELSE LET r == F["Stats", p + 1] IN IF Bad(r) THEN r ELSE IF K(t, r[2]) # "}" THEN Wr(r[2]) ELSE <<<<"block", r[1]>>, r[2] + 1>>
Body(F, t, p) == IF K(t, p) = "{" THEN F["Block", p] ELSE F["Stat", p]
Paren(F, t, p) == IF K(t, p) # "(" THEN Wr(p) ELSE LET r == F["Cond", p + 1] IN IF Bad(r) THEN r ELSE IF K(t, r[2]) # ")" THEN Wr(r[2]) ELSE <<r[1], r[2] + 1>>
Command(F, t, p) ==
  CASE K(t, p) = "return;" -> <<<<"ret", <<>>>>, p + 1>>
    [] K(t, p) = "return" -> IF K(t, p + 1) = "}" THEN <<<<"ret", <<>>>>, p + 1>>
                             ELSE LET r == F["Cond", p + 1] IN IF Bad(r) THEN r ELSE <<<<"ret", r[1]>>, r[2]>>
    [] OTHER ->
       LET a == F["Ref", p]
       IN IF Bad(a) THEN a
          ELSE IF K(t, a[2]) = "=" THEN
             IF a[1][1] = "call" THEN Wr(a[2]) ELSE LET e == F["Expr", a[2] + 1] IN IF Bad(e) THEN e ELSE <<<<"asg", a[1], e[1]>>, e[2]>>
          ELSE IF a[1][1] = "call" THEN <<<<"do", a[1]>>, a[2]>>
          ELSE Wr(a[2])
Stat(F, t, p) ==
  CASE K(t, p) = "}" -> <<<<"skip">>, p>>
    [] K(t, p) = "var" ->
         IF K(t, p + 1) # "id" THEN Wr(p + 1)
         ELSE IF K(t, p + 2) # "=" THEN <<<<"var", X(t, p + 1), <<>>, p + 1>>, p + 2>>
         ELSE LET e == F["Expr", p + 3] IN IF Bad(e) THEN e ELSE <<<<"var", X(t, p + 1), e[1], p + 1>>, e[2]>>
    [] K(t, p) = "function" ->
         IF K(t, p + 1) # "id" THEN Wr(p + 1)
         ELSE LET a == Params(t, p + 2)
              IN IF Bad(a) THEN a
                 ELSE LET q == IF K(t, a[2]) = "str" THEN a[2] + 1 ELSE a[2]          \* a description may stand here
                          b == F["Block", q]
                      IN IF Bad(b) THEN b ELSE <<<<"fun", X(t, p + 1), a[1], b[1][2], p + 1>>, b[2]>>
    [] K(t, p) = "if" ->
         LET c == Paren(F, t, p + 1)
         IN IF Bad(c) THEN c
            ELSE LET a == F["Body", c[2]]
                 IN IF Bad(a) THEN a
                    ELSE IF K(t, a[2]) # "else" THEN <<<<"if", c[1], a[1], <<"skip">>>>, a[2]>>
                    ELSE LET b == F["Body", a[2] + 1] IN IF Bad(b) THEN b ELSE <<<<"if", c[1], a[1], b[1]>>, b[2]>>
    [] K(t, p) = "while" ->
         LET c == Paren(F, t, p + 1)
         IN IF Bad(c) THEN c ELSE LET a == F["Body", c[2]] IN IF Bad(a) THEN a ELSE <<<<"while", c[1], a[1]>>, a[2]>>
    [] K(t, p) = "for" ->
         IF K(t, p + 1) # "(" THEN Wr(p + 1)
         ELSE LET a == F["Command", p + 2]
              IN IF Bad(a) THEN a ELSE IF K(t, a[2]) # "," THEN Wr(a[2])
                 ELSE LET c == F["Cond", a[2] + 1]
                      IN IF Bad(c) THEN c ELSE IF K(t, c[2]) # "," THEN Wr(c[2])
                         ELSE LET u == F["Command", c[2] + 1]
                              IN IF Bad(u) THEN u ELSE IF K(t, u[2]) # ")" THEN Wr(u[2])
                                 ELSE LET b == F["Body", u[2] + 1]
                                      IN IF Bad(b) THEN b ELSE <<<<"for", a[1], c[1], u[1], b[1]>>, b[2]>>
    [] OTHER -> F["Command", p]
\* ---- all of it: from position and kind of phrase to its tree (a function, so that TLC's contexts stay short)
Kinds == {"Cond", "Compar", "Expr", "Prod", "Modulo", "Power", "ShiftE", "BitsE", "BNotE", "Operand", "Ref", "Stats", "Stat", "Block", "Body", "Command"}
Closing(t, p) ==                         \* the parenthesis that closes the one at p
  FoldLeft(LAMBDA a, i : IF a[2] # 0 THEN a
                         ELSE LET d == a[1] + (IF K(t, i) = "(" THEN 1 ELSE IF K(t, i) = ")" THEN -1 ELSE 0) IN <<d, IF d = 0 THEN i ELSE 0>>,
           <<0, 0>>, [j \in 1..(Len(t) + 1 - p) |-> p + j - 1])[2]
\* a statement and the lines it stands on; of a conditional or a loop its head
Mark(t, p, r) ==
  IF Bad(r) \/ r[1][1] = "skip" THEN r
  ELSE LET q == IF K(t, p) \in {"if", "while", "for"} THEN Closing(t, p + 1) ELSE r[2] - 1
       IN <<<<"at", <<t[p][3], t[p][4], t[q][3], t[q][4]>>, r[1]>>, r[2]>>
Grammar(t, marks) ==
  LET F[q \in Kinds \X (1..Len(t))] ==
                   CASE q[1] = "Cond" -> Cond(F, t, q[2])
                     [] q[1] = "Compar" -> Compar(F, t, q[2])
                     [] q[1] = "Expr" -> Expr(F, t, q[2])
                     [] q[1] = "Prod" -> Prod(F, t, q[2])
                     [] q[1] = "Modulo" -> Modulo(F, t, q[2])
                     [] q[1] = "Power" -> Power(F, t, q[2])
                     [] q[1] = "ShiftE" -> ShiftE(F, t, q[2])
                     [] q[1] = "BitsE" -> BitsE(F, t, q[2])
                     [] q[1] = "BNotE" -> BNotE(F, t, q[2])
                     [] q[1] = "Operand" -> Operand(F, t, q[2])
                     [] q[1] = "Ref" -> Ref(F, t, q[2])
                     [] q[1] = "Stats" -> Stats(F, t, q[2])
                     [] q[1] = "Stat" -> IF marks THEN Mark(t, q[2], Stat(F, t, q[2])) ELSE Stat(F, t, q[2])
                     [] q[1] = "Block" -> Block(F, t, q[2])
                     [] q[1] = "Body" -> Body(F, t, q[2])
                     [] q[1] = "Command" -> Command(F, t, q[2])
  IN F
\* ---- scopes: a local may not be declared again where it is visible; functions are declared outside of all blocks
\* E... return the position of the offending token, 0 if there is none; a statement returns <<position, locals afterwards>>
RECURSIVE EExpr(_, _), EList(_, _), EStat(_, _, _), EStats(_, _, _)
EList(es, sc) == IF es = <<>> THEN 0 ELSE LET a == EExpr(es[1], sc) IN IF a # 0 THEN a ELSE EList(Tail(es), sc)
EExpr(e, sc) ==
  CASE e[1] \in {"const", "id"} -> 0
    [] e[1] = "bin" -> EList(<<e[3], e[4]>>, sc)
    [] e[1] = "un" -> EExpr(e[3], sc)
    [] e[1] = "tab" -> EList([i \in 1..Len(e[2]) |-> e[2][i][2]], sc)
    [] e[1] = "idx" -> EList(<<e[2], e[3]>>, sc)
    [] e[1] = "call" -> EList(<<e[2]>> \o e[3], sc)
    [] e[1] = "lam" -> EStats(e[3], sc \cup {"self"} \cup {e[2][i] : i \in 1..Len(e[2])}, FALSE)[1]
EStats(ss, sc, glob) == FoldLeft(LAMBDA a, st : IF a[1] # 0 THEN a ELSE EStat(st, a[2], glob), <<0, sc>>, ss)
EBody(s, sc, glob) == IF s[1] = "block" THEN (IF s[2] = <<>> THEN 0 ELSE EStats(s[2], sc \cup {"self"}, FALSE)[1]) ELSE EStat(s, sc, glob)[1]
EStat(s, sc, glob) ==
  CASE s[1] = "skip" -> <<0, sc>>
    [] s[1] = "at" -> EStat(s[3], sc, glob)
    [] s[1] = "var" -> IF s[2] \in sc THEN <<s[4], sc>>
                       ELSE LET n == IF glob THEN sc ELSE sc \cup {s[2]} IN IF s[3] = <<>> THEN <<0, n>> ELSE <<EExpr(s[3], n), n>>
    [] s[1] = "fun" -> IF ~glob THEN <<s[5], sc>> ELSE <<EStats(s[4], {"self"} \cup {s[3][i] : i \in 1..Len(s[3])}, FALSE)[1], sc>>
    [] s[1] = "if" -> LET a == EExpr(s[2], sc)
                          b == EBody(s[3], sc, glob)
                      IN <<IF a # 0 THEN a ELSE IF b # 0 THEN b ELSE EBody(s[4], sc, glob), sc>>
    [] s[1] = "while" -> LET a == EExpr(s[2], sc) IN <<IF a # 0 THEN a ELSE EBody(s[3], sc, glob), sc>>
    [] s[1] = "for" -> LET a == EStat(s[2], sc, glob)[1]
                           b == EExpr(s[3], sc)
                           c == EStat(s[4], sc, glob)[1]
                       IN <<IF a # 0 THEN a ELSE IF b # 0 THEN b ELSE IF c # 0 THEN c ELSE EBody(s[5], sc, glob), sc>>
    [] s[1] = "ret" -> <<IF s[2] = <<>> THEN 0 ELSE EExpr(s[2], sc), sc>>
    [] s[1] = "asg" -> <<EList(<<s[2], s[3]>>, sc), sc>>
    [] s[1] = "do" -> <<EExpr(s[2], sc), sc>>
\* statement ends leave their mark on return only
Squeeze(t) == FoldLeft(LAMBDA a, k : IF k[1] # "end" THEN Append(a, k)
                                     ELSE IF a # <<>> /\ a[Len(a)][1] = "return" THEN [a EXCEPT ![Len(a)][1] = "return;"] ELSE a, <<>>, t)
\* ---- a program: [ok, stats] or [ok |-> FALSE, at |-> <<file, line>>], line 0 when the text ends too early
Program(files, main) ==
  LET l == Lex(files, main)
      t == Squeeze(l.toks)
      r == Grammar(t, TRUE)["Stats", 1]
      Refuse(p) == [ok |-> FALSE, alt |-> {}, at |-> IF K(t, p) = "eof" /\ l.bad # <<>> THEN l.bad ELSE <<t[p][3], t[p][4]>>]
      s == EStats(r[1], {}, TRUE)
      \* which of two mistakes is reported is left open: names declared before the syntax breaks
      Again(q) == X(t, q) = "self" \/ \E o \in 1..(q - 1) : K(t, o) = "id" /\ X(t, o) = X(t, q)
      names(p) == {q \in 2..p : K(t, q) = "id" /\ (K(t, q - 1) = "function" \/ (K(t, q - 1) = "var" /\ Again(q)))}
  IN IF Bad(r) THEN [Refuse(r[1][2]) EXCEPT !.alt = {<<t[q][3], t[q][4]>> : q \in names(r[1][2])}]
     ELSE IF s[1] # 0 THEN Refuse(s[1])
     ELSE IF K(t, r[2]) # "eof" THEN Refuse(r[2])
     ELSE IF l.bad # <<>> THEN [ok |-> FALSE, alt |-> {}, at |-> l.bad]
     ELSE [ok |-> TRUE, stats |-> r[1]]
=============================================================================
