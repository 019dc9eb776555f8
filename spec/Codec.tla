------------------------------- MODULE Codec -------------------------------
(***************************************************************************)
(* The wire format of values and messages, byte by byte.                   *)
(*                                                                         *)
(* Values: <<"n">>, <<"i", b>> and <<"f", b>> with b the 4 bytes (big      *)
(* endian) of the two's complement / IEEE 754 single pattern, <<"s", bs>>  *)
(* with the characters, <<"t", S>> with S a set of <<key, value>> pairs,   *)
(* <<"c", native, b>> for functions.                                       *)
(* Decode(bs, p) = <<value, next position>>, or <<>> when malformed.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

U16(hi, lo) == hi * 256 + lo
B16(n) == <<n \div 256, n % 256>>

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)

\* 4 bytes -> integer (the sign bit taken care of first, so nothing overflows)
ToInt(b) == IF b[1] >= 128 THEN ((b[1] - 256) * 16777216) + b[2] * 65536 + b[3] * 256 + b[4]
            ELSE b[1] * 16777216 + b[2] * 65536 + b[3] * 256 + b[4]
\* integer -> 4 bytes
FromInt(n) == IF n >= 0 THEN <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
              ELSE LET m == -(n + 1)
                   IN <<255 - (m \div 16777216), 255 - ((m \div 65536) % 256), 255 - ((m \div 256) % 256), 255 - (m % 256)>>

(***************************************************************************)
(* Floats travel as two integers: x = sign * (0.5 + (|mant|-1)/2^32) * 2^e *)
(***************************************************************************)
FSign(b) == b[1] >= 128
FExp(b) == ((b[1] % 128) * 2) + (b[2] \div 128)
FMan(b) == ((b[2] % 128) * 65536) + (b[3] * 256) + b[4]
FBits(neg, e, m) == <<(IF neg THEN 128 ELSE 0) + (e \div 2), ((e % 2) * 128) + (m \div 65536), (m \div 256) % 256, m % 256>>
Finite(b) == FExp(b) # 255

\* <<mantissa fraction of 23 bits, exponent>> with x = (0.5 + f/2^24) * 2^e
RECURSIVE Norm23(_, _)
Norm23(m, e) == IF m >= 8388608 THEN <<m - 8388608, e>> ELSE Norm23(2 * m, e - 1)
Split(b) == IF FExp(b) = 0 THEN Norm23(FMan(b), -125) ELSE <<FMan(b), FExp(b) - 126>>

EncFloat(b) ==
  IF FExp(b) = 0 /\ FMan(b) = 0 THEN <<0, 0, 0, 0, 0, 0, 0, 0>>
  ELSE LET s == Split(b)
           k == s[1] * 256 + 1
       IN FromInt(IF FSign(b) THEN -k ELSE k) \o FromInt(s[2])

\* Only mantissas produced by EncFloat are given a meaning; others round.
DecFloat(mb, eb) ==
  LET mant == ToInt(mb)
      e == ToInt(eb)
  IN IF mant = 0 THEN <<0, 0, 0, 0>>
     ELSE LET k == IF mant < 0 THEN -mant ELSE mant
              f == (k - 1) \div 256
          IN IF e >= -125 /\ e <= 128 THEN FBits(mant < 0, e + 126, f)
             ELSE IF e < -125 /\ e > -149 THEN FBits(mant < 0, 0, (f + 8388608) \div Pow2(-125 - e))
             ELSE <<"?">>
ExactMant(mb, eb) == LET m == ToInt(mb) IN
   \/ m = 0
   \/ /\ (IF m < 0 THEN -m ELSE m) % 256 = 1
      /\ m # -2147483647 - 1
      /\ ToInt(eb) \in -125..128

(***************************************************************************)
(* Values                                                                  *)
(***************************************************************************)
RECURSIVE Encode(_)
RECURSIVE EncodePairs(_)
Encode(v) ==
  CASE v[1] = "n" -> <<0>>
    [] v[1] = "i" -> <<1>> \o v[2]
    [] v[1] = "f" -> <<2>> \o EncFloat(v[2])
    [] v[1] = "s" -> <<3>> \o B16(Len(v[2])) \o v[2]
    [] v[1] = "t" -> <<4, Cardinality(v[2])>> \o EncodePairs(v[2])
    [] v[1] = "c" -> <<5, v[2]>> \o v[3]
EncodePairs(S) == IF S = {} THEN <<>>
                  ELSE LET p == CHOOSE p \in S : TRUE
                       IN Encode(p[1]) \o Encode(p[2]) \o EncodePairs(S \ {p})

\* the characters of a string end at the first zero
UpToZero(s) == LET z == {i \in 1..Len(s) : s[i] = 0}
               IN IF z = {} THEN s ELSE SubSeq(s, 1, (CHOOSE i \in z : \A j \in z : i <= j) - 1)

RECURSIVE Decode(_, _)
RECURSIVE DecodePairs(_, _, _, _)
Decode(bs, p) ==
  LET left == Len(bs) - p     \* bytes after the tag
  IN IF p > Len(bs) THEN <<>>
     ELSE CASE bs[p] = 0 -> << <<"n">>, p + 1>>
            [] bs[p] = 1 -> IF left < 4 THEN <<>> ELSE << <<"i", SubSeq(bs, p + 1, p + 4)>>, p + 5>>
            [] bs[p] = 2 -> IF left < 8 THEN <<>>
                            ELSE << <<"f", DecFloat(SubSeq(bs, p + 1, p + 4), SubSeq(bs, p + 5, p + 8))>>, p + 9>>
            [] bs[p] = 3 -> IF left < 2 THEN <<>>
                            ELSE LET n == U16(bs[p + 1], bs[p + 2])
                                 IN IF left < 2 + n THEN <<>>
                                    ELSE << <<"s", UpToZero(SubSeq(bs, p + 3, p + 2 + n))>>, p + 3 + n>>
            [] bs[p] = 4 -> IF left < 1 THEN <<>> ELSE DecodePairs(bs, p + 2, bs[p + 1], {})
            [] bs[p] = 5 -> IF left < 5 THEN <<>> ELSE << <<"c", bs[p + 1], SubSeq(bs, p + 2, p + 5)>>, p + 6>>
            [] OTHER -> <<>>
\* later pairs with the same key replace earlier ones
DecodePairs(bs, p, n, acc) ==
  IF n = 0 THEN << <<"t", acc>>, p>>
  ELSE LET k == Decode(bs, p)
       IN IF k = <<>> THEN <<>>
          ELSE IF k[1][1] \notin {"i", "f", "s"} THEN <<>>
          ELSE LET v == Decode(bs, k[2])
               IN IF v = <<>> THEN <<>>
                  ELSE DecodePairs(bs, v[2], n - 1, {x \in acc : x[1] # k[1]} \cup {<<k[1], v[1]>>})

(***************************************************************************)
(* Messages: a record, or "bad"                                            *)
(***************************************************************************)
Bad == [t |-> "bad"]
RECURSIVE Ids(_, _, _)
Ids(bs, p, n) == IF n = 0 THEN <<>> ELSE <<U16(bs[p], bs[p + 1])>> \o Ids(bs, p + 2, n - 1)
DecodeMsg(bs) ==
  IF bs = <<>> THEN Bad
  ELSE CASE bs[1] = 0 ->
              LET k == Decode(bs, 2)
              IN IF k = <<>> THEN Bad
                 ELSE IF k[1][1] # "s" THEN Bad
                 ELSE LET v == Decode(bs, k[2])
                      IN IF v = <<>> THEN Bad ELSE [t |-> "B", topic |-> k[1], val |-> v[1], end |-> v[2] - 1]
         [] bs[1] \in {2, 3} ->
              IF Len(bs) < 3 THEN Bad
              ELSE LET k == Decode(bs, 4)
                   IN IF k = <<>> THEN Bad
                      ELSE LET v == Decode(bs, k[2])
                           IN IF v = <<>> THEN Bad
                              ELSE IF Len(bs) < v[2] + 3 THEN Bad
                              ELSE [t |-> IF bs[1] = 2 THEN "P" ELSE "Q", id |-> U16(bs[2], bs[3]),
                                    key |-> k[1], val |-> v[1], ts |-> U16(bs[v[2]], bs[v[2] + 1]),
                                    rob |-> U16(bs[v[2] + 2], bs[v[2] + 3]), end |-> v[2] + 3]
         [] bs[1] = 1 ->
              IF Len(bs) < 3 THEN Bad
              ELSE LET n == U16(bs[2], bs[3])
                   IN IF Len(bs) < 3 + 2 * n THEN Bad
                      ELSE [t |-> "L", ids |-> Ids(bs, 4, n), end |-> 3 + 2 * n]
         [] bs[1] \in {4, 5} ->
              IF Len(bs) < 3 THEN Bad
              ELSE [t |-> IF bs[1] = 4 THEN "J" ELSE "V", id |-> U16(bs[2], bs[3]), end |-> 3]
         [] OTHER -> Bad
EncodeMsg(m) ==
  CASE m.t = "B" -> <<0>> \o Encode(m.topic) \o Encode(m.val)
    [] m.t = "L" -> <<1>> \o B16(Len(m.ids)) \o (LET RECURSIVE E(_)
                                                     E(s) == IF s = <<>> THEN <<>> ELSE B16(Head(s)) \o E(Tail(s))
                                                 IN E(m.ids))
    [] m.t \in {"P", "Q"} -> <<IF m.t = "P" THEN 2 ELSE 3>> \o B16(m.id) \o Encode(m.key) \o Encode(m.val)
                             \o B16(m.ts) \o B16(m.rob)
    [] m.t \in {"J", "V"} -> <<IF m.t = "J" THEN 4 ELSE 5>> \o B16(m.id)
=============================================================================
