------------------------------- MODULE Arith --------------------------------
(* Values of Buzz and what the operators compute on them.                  *)
(*                                                                         *)
(*   <<"n">>  <<"i",n>>  <<"f",m,e>>  <<"s",text>>  <<"t",id>>  <<"c",id>>  *)
(*                                                                         *)
(* A float is m * 2^e with m odd (or <<"f",0,0>>); e = 999 marks infinities *)
(* (m = 1, -1) and not-a-number (m = 3).  <<"?","i">>, <<"?","f">> and      *)
(* <<"?","b">> stand for "some integer / float / truth value": results the *)
(* definition leaves open (integer overflow, results that have to be       *)
(* rounded beyond what is modelled, order between unordered types);        *)
(* <<"?","f",lo,hi>> is some float between the two.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Real
Nil == <<"n">>
I(n) == <<"i", n>>
S(t) == <<"s", t>>
AnyI == <<"?", "i">>
AnyF == <<"?", "f">>
AnyB == <<"?", "b">>
MaxInt == 2147483647
MinInt == -2147483647 - 1
Tag(v) == v[1]
IsNum(v) == v[1] \in {"i", "f"} \/ (v[1] = "?")
IsInt(v) == v[1] = "i" \/ (v[1] = "?" /\ v[2] # "f")
IsFloat(v) == v[1] = "f" \/ (v[1] = "?" /\ v[2] = "f")
Wild(v) == v[1] = "?"
Abs(n) == IF n < 0 THEN -n ELSE n
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
P2 == [k \in 0..30 |-> Pow2(k)]
RECURSIVE Bits(_)                       \* number of binary digits of n >= 0
Bits(n) == IF n = 0 THEN 0 ELSE 1 + Bits(n \div 2)
\* ---- floats
RECURSIVE Odd(_, _)
Odd(m, e) == IF m = 0 THEN <<"f", 0, 0>> ELSE IF m % 2 = 0 THEN Odd(m \div 2, e + 1) ELSE <<"f", m, e>>
\* nearest float (ties to even) of m * 2^e
Round(m, e) ==
  LET a == Abs(m)
      sg == IF m < 0 THEN -1 ELSE 1
      b == Bits(a)
  IN IF b + e > 128 \/ e < -120 THEN AnyF
     ELSE IF b <= 24 THEN Odd(m, e)
     ELSE LET k == b - 24
              q == a \div P2[k]
              r == a % P2[k]
              h == P2[k - 1]
              q2 == IF r > h \/ (r = h /\ (q % 2) = 1) THEN q + 1 ELSE q
          IN Odd(sg * q2, e + k)
Finite(v) == v[1] = "f" /\ v[3] # 999
ToF(v) == CASE Wild(v) -> AnyF
            [] v[1] = "f" -> v
            [] v[2] = MinInt -> <<"f", -1, 31>>
            [] OTHER -> Round(v[2], 0)
\* m * 2^e as a number scaled to exponent x <= e, or out of reach
Fits(m, k) == k <= 30 /\ Bits(Abs(m)) + k <= 30
Low(a, b) == IF a[2] = 0 THEN b[3] ELSE IF b[2] = 0 THEN a[3] ELSE IF a[3] < b[3] THEN a[3] ELSE b[3]
Scale(a, x) == IF a[2] = 0 THEN 0 ELSE a[2] * P2[a[3] - x]
CanAlign(a, b) == LET x == Low(a, b) IN (a[2] = 0 \/ Fits(a[2], a[3] - x)) /\ (b[2] = 0 \/ Fits(b[2], b[3] - x))
FAdd(a, b) == IF ~(Finite(a) /\ Finite(b)) \/ ~CanAlign(a, b) THEN AnyF
              ELSE LET x == Low(a, b) IN Round(Scale(a, x) + Scale(b, x), x)
FNeg(a) == IF Wild(a) THEN a ELSE IF a[3] = 999 /\ a[2] = 3 THEN a ELSE <<"f", -a[2], a[3]>>
FMul(a, b) == IF ~(Finite(a) /\ Finite(b)) \/ Bits(Abs(a[2])) + Bits(Abs(b[2])) > 30 THEN AnyF
              ELSE Round(a[2] * b[2], a[3] + b[3])
\* 27 or more digits of the quotient, what is left, and how far they were shifted
RECURSIVE LongDiv(_, _, _, _)
LongDiv(r, d, q, k) == IF q >= P2[26] THEN <<q, r, k>>
                       ELSE LET r2 == 2 * r
                            IN IF r2 >= d THEN LongDiv(r2 - d, d, 2 * q + 1, k + 1) ELSE LongDiv(r2, d, 2 * q, k + 1)
FDiv(a, b) ==
  IF ~(Finite(a) /\ Finite(b)) \/ b[2] = 0 THEN AnyF
  ELSE IF a[2] = 0 THEN <<"f", 0, 0>>
  ELSE LET n == Abs(a[2])
           d == Abs(b[2])
           l == LongDiv(n % d, d, n \div d, 0)
           \* a sticky last digit keeps the rounding right
           q == IF l[2] = 0 THEN l[1] ELSE IF (l[1] % 2) = 0 THEN l[1] + 1 ELSE l[1]
           sg == IF (a[2] < 0) # (b[2] < 0) THEN -1 ELSE 1
       IN Round(sg * q, a[3] - b[3] - l[3])
FCmp(a, b) ==                            \* -1, 0, 1 or 9 (open)
  IF ~(Finite(a) /\ Finite(b)) THEN
     IF a = b /\ a[1] = "f" /\ a[2] # 3 THEN 0 ELSE 9
  ELSE IF CanAlign(a, b) THEN
     LET x == Low(a, b) p == Scale(a, x) q == Scale(b, x) IN IF p < q THEN -1 ELSE IF p > q THEN 1 ELSE 0
  ELSE IF (a[2] < 0) # (b[2] < 0) THEN (IF a[2] < 0 THEN -1 ELSE 1)
  ELSE IF Bits(Abs(a[2])) + a[3] # Bits(Abs(b[2])) + b[3] THEN
     LET s == IF a[2] < 0 THEN -1 ELSE 1
     IN IF Bits(Abs(a[2])) + a[3] < Bits(Abs(b[2])) + b[3] THEN -s ELSE s
  ELSE 9
\* C's fmod, then brought into the sign of a remainder
FMod(a, b) ==
  IF ~(Finite(a) /\ Finite(b)) \/ b[2] = 0 \/ ~CanAlign(a, b) THEN AnyF
  ELSE LET x == Low(a, b)
           p == Scale(a, x)
           q == Abs(Scale(b, x))
       IN Round(p % q, x)                \* TLA+'s % on a positive divisor is never negative
\* what is known of a real function at x
Real1(k) == LET t == SelectSeq(RealTable, LAMBDA r : r[1] = k) IN IF t = <<>> THEN AnyF ELSE <<"?", "f", t[1][2], t[1][3]>>
RECURSIVE IPow(_, _)
IPow(m, n) == IF n = 0 THEN 1 ELSE m * IPow(m, n - 1)
FPow(a, b) ==
  IF ~(Finite(a) /\ Finite(b)) THEN AnyF
  ELSE IF b[2] = 0 THEN <<"f", 1, 0>>
  ELSE IF b[3] < 0 \/ ~Fits(b[2], b[3]) THEN Real1(<<"pow", a, b>>)
  ELSE LET n == b[2] * P2[b[3]]
       IN IF a[2] = 0 THEN (IF n > 0 THEN <<"f", 0, 0>> ELSE AnyF)
          ELSE IF n < 0 THEN
             IF a[2] \in {1, -1} /\ Abs(n) <= 40 /\ Abs(a[3] * n) <= 100
             THEN <<"f", IF (n % 2) = 0 THEN 1 ELSE a[2], a[3] * n>> ELSE Real1(<<"pow", a, b>>)
          ELSE IF n <= 40 /\ Bits(Abs(a[2])) * n <= 24 + n /\ Abs(a[3] * n) <= 100 /\ (a[2] \in {1, -1} \/ Bits(Abs(a[2])) * n <= 24)
             THEN Odd(IPow(a[2], n), a[3] * n)
          ELSE AnyF
\* ---- integers
IAdd(a, b) == IF (b > 0 /\ a > MaxInt - b) \/ (b < 0 /\ a < MinInt - b) THEN AnyI ELSE I(a + b)
ISub(a, b) == IF (b < 0 /\ a > MaxInt + b) \/ (b > 0 /\ a < MinInt + b) THEN AnyI ELSE I(a - b)
INeg(a) == IF a = MinInt THEN AnyI ELSE I(-a)
IMul(a, b) == IF a = 0 \/ b = 0 THEN I(0) ELSE IF a = 1 THEN I(b) ELSE IF b = 1 THEN I(a)
              ELSE IF a = MinInt \/ b = MinInt THEN AnyI
              ELSE IF Abs(a) > MaxInt \div Abs(b) THEN AnyI ELSE I(a * b)
\* truncating division; MinInt is handled apart because its magnitude does not fit
IDiv(a, b) == IF a = MinInt \/ b = MinInt THEN (IF a = b THEN I(1) ELSE IF b = MinInt THEN I(0) ELSE IF b = 1 THEN I(a) ELSE AnyI)
              ELSE LET q == Abs(a) \div Abs(b) IN I(IF (a < 0) # (b < 0) THEN -q ELSE q)
IMod(a, b) == IF b = MinInt THEN AnyI ELSE I(a % Abs(b))
\* ---- bits, on two's complement of 32
Bit32(n, k) == IF k = 31 THEN (IF n < 0 THEN 1 ELSE 0)
               ELSE LET u == IF n < 0 THEN n + MaxInt + 1 ELSE n IN (u \div P2[k]) % 2
RECURSIVE FromBits(_, _)                \* value of bits 0..30 of f, from bit k up
FromBits(f, k) == IF k = 31 THEN 0 ELSE f[k] * P2[k] + FromBits(f, k + 1)
OfBits(f) == LET l == FromBits(f, 0) IN IF f[31] = 1 THEN (l - MaxInt) - 1 ELSE l
BAnd(a, b) == I(OfBits([k \in 0..31 |-> IF Bit32(a, k) = 1 /\ Bit32(b, k) = 1 THEN 1 ELSE 0]))
BOr(a, b) == I(OfBits([k \in 0..31 |-> IF Bit32(a, k) = 1 \/ Bit32(b, k) = 1 THEN 1 ELSE 0]))
BNot(a) == I(IF a = MaxInt THEN MinInt ELSE -(a + 1))
Shl(a, n) == IF n < 0 \/ n > 31 \/ a < 0 THEN AnyI          \* left open by C
             ELSE IF n = 31 THEN (IF a = 0 THEN I(0) ELSE AnyI)
             ELSE IF a > MaxInt \div P2[n] THEN AnyI ELSE I(a * P2[n])
Shr(a, n) == IF n < 0 \/ n > 31 THEN AnyI
             ELSE I(OfBits([k \in 0..31 |-> IF k + n > 31 THEN (IF a < 0 THEN 1 ELSE 0) ELSE Bit32(a, k + n)]))
\* ---- operators on values: the result, or <<"error">>
TypeError == <<"error">>
Arith(op, a, b) ==                       \* a op b
  IF ~IsNum(a) \/ ~IsNum(b) THEN TypeError
  ELSE IF IsInt(a) /\ IsInt(b) /\ op # "pow" THEN
     IF op \in {"div", "mod"} /\ b = I(0) THEN TypeError
     ELSE IF Wild(a) \/ Wild(b) THEN (IF op \in {"div", "mod"} /\ Wild(b) THEN <<"?", "any">> ELSE AnyI)
     ELSE (CASE op = "add" -> IAdd(a[2], b[2]) [] op = "sub" -> ISub(a[2], b[2]) [] op = "mul" -> IMul(a[2], b[2])
            [] op = "div" -> IDiv(a[2], b[2]) [] op = "mod" -> IMod(a[2], b[2]))
  ELSE LET x == ToF(a) y == ToF(b)
       IN IF Wild(x) \/ Wild(y) THEN AnyF
          ELSE (CASE op = "add" -> FAdd(x, y) [] op = "sub" -> FAdd(x, FNeg(y)) [] op = "mul" -> FMul(x, y)
                 [] op = "div" -> FDiv(x, y) [] op = "mod" -> FMod(x, y) [] op = "pow" -> FPow(x, y))
Neg(a) == IF ~IsNum(a) THEN TypeError ELSE IF Wild(a) THEN a ELSE IF a[1] = "i" THEN INeg(a[2]) ELSE FNeg(a)
Bitwise(op, a, b) ==
  IF ~IsInt(a) \/ ~IsInt(b) THEN TypeError ELSE IF Wild(a) \/ Wild(b) THEN AnyI
  ELSE (CASE op = "band" -> BAnd(a[2], b[2]) [] op = "bor" -> BOr(a[2], b[2])
         [] op = "lshift" -> Shl(a[2], b[2]) [] op = "rshift" -> Shr(a[2], b[2]))
False(v) == v = Nil \/ v = I(0)
Truth(b) == I(IF b THEN 1 ELSE 0)
\* ---- comparison
Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Chars == [i \in 1..Len(Printable) |-> SubSeq(Printable, i, i)]
CharSet == {Chars[i] : i \in 1..Len(Printable)}
Code == [c \in CharSet |-> 31 + (CHOOSE i \in 1..Len(Printable) : Chars[i] = c)]
RECURSIVE StrCmp(_, _)
StrCmp(a, b) == IF a = b THEN 0 ELSE IF a = "" THEN -1 ELSE IF b = "" THEN 1
                ELSE LET x == SubSeq(a, 1, 1) y == SubSeq(b, 1, 1)
                     IN IF x = y THEN StrCmp(SubSeq(a, 2, Len(a)), SubSeq(b, 2, Len(b)))
                        ELSE IF x \notin CharSet \/ y \notin CharSet THEN 9
                        ELSE IF Code[x] < Code[y] THEN -1 ELSE 1
RECURSIVE Pad(_, _)
Pad(s, n) == IF Len(s) >= n THEN s ELSE Pad("0" \o s, n)
\* the six-decimal text of a float, where it is exact and small
FText(v) == IF v[2] = 0 THEN "?"             \* the sign of zero is not modelled
            ELSE IF v[3] >= 0 THEN (IF Fits(v[2], v[3]) THEN ToString(v[2] * P2[v[3]]) \o ".000000" ELSE "?")
            ELSE IF v[3] < -6 \/ Abs(v[2]) > 60000 THEN "?"
            ELSE LET d == P2[-v[3]]
                     a == Abs(v[2])
                     fr == ((a % d) * 15625) * (64 \div d)
                 IN (IF v[2] < 0 THEN "-" ELSE "") \o ToString(a \div d) \o "." \o Pad(ToString(fr), 6)
NumText(v) == IF v[1] = "i" THEN ToString(v[2]) ELSE IF v[3] = 999 THEN "?" ELSE FText(v)
Rank(v) == CASE v[1] = "n" -> 0 [] v[1] = "i" -> 1 [] v[1] = "f" -> 2 [] v[1] = "s" -> 3 [] v[1] = "t" -> 4 [] v[1] = "c" -> 5 [] OTHER -> 6
\* -1, 0, 1; 8: different but in no defined order; 9: open
Cmp(a, b) ==
  CASE Wild(a) \/ Wild(b) -> 9
    [] a[1] = "n" /\ b[1] = "n" -> 0
    [] a[1] = "n" \/ b[1] = "n" -> 8
    [] a[1] = "i" /\ b[1] = "i" -> IF a[2] < b[2] THEN -1 ELSE IF a[2] > b[2] THEN 1 ELSE 0
    [] IsNum(a) /\ IsNum(b) -> FCmp(ToF(a), ToF(b))
    [] a[1] = "s" /\ b[1] = "s" -> StrCmp(a[2], b[2])
    [] a[1] = "s" /\ IsNum(b) -> IF NumText(b) = "?" THEN 9 ELSE StrCmp(a[2], NumText(b))
    [] IsNum(a) /\ b[1] = "s" -> IF NumText(a) = "?" THEN 9 ELSE StrCmp(NumText(a), b[2])
    [] a[1] = b[1] -> IF a[2] = b[2] THEN 0 ELSE 8
    [] OTHER -> 8
Compare(op, a, b) ==
  LET c == Cmp(a, b)
  IN IF c = 9 THEN AnyB
     ELSE IF op = "eq" THEN Truth(c = 0) ELSE IF op = "neq" THEN Truth(c # 0)
     ELSE IF c = 8 THEN AnyB
     ELSE (CASE op = "gt" -> Truth(c > 0) [] op = "gte" -> Truth(c >= 0) [] op = "lt" -> Truth(c < 0) [] op = "lte" -> Truth(c <= 0))
\* ---- observed value v where w was computed
Within(v, lo, hi) == FCmp(lo, v) \in {-1, 0} /\ FCmp(v, hi) \in {-1, 0}
Match(w, v) == IF w[1] # "?" THEN w = v
               ELSE (CASE w[2] = "i" -> v[1] = "i" [] w[2] = "f" -> v[1] = "f" /\ (Len(w) = 4 => Within(v, w[3], w[4]))
                      [] w[2] = "b" -> v \in {I(0), I(1)} [] OTHER -> TRUE)
\* ---- table keys: equal numbers are one key
Key(k) == IF k[1] = "f" /\ k[3] # 999 /\ k[3] >= 0 /\ Fits(k[2], k[3]) THEN I(k[2] * P2[k[3]]) ELSE k
KeyOk(k) == k[1] \in {"i", "f", "s"}
=============================================================================
