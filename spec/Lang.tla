-------------------------------- MODULE Lang --------------------------------
(* What a Buzz script means: evaluation of its syntax tree.                *)
(*                                                                         *)
(* State s: g (globals), o (objects: <<"t", set of <<key, key as written,  *)
(* value>>>>, <<"lam", params, stats, env>>, <<"nat", name, self>>),       *)
(* env (visible locals), odd (called with another number of arguments than *)
(* declared), log (what the script handed to rec), er (error code), at     *)
(* (where the statement that failed stands), ret                           *)
(* (<<>> or <<value>>), fuel, deep (calls entered), wild (what follows is  *)
(* left open), want (the log that was seen; it only resolves the order in  *)
(* which tables are walked, which the language leaves open), rng (seed and *)
(* draws so far), fs (files: name -> text), fh (file handles: name, mode,   *)
(* position, open?, last use), lst (listeners: topic -> function).         *)
EXTENDS Parse
eStack == 2
eLnum == 3
eType == 6
eSome == 99                              \* an error of some kind
Miss == <<"miss">>
Stop(s) == s.er # 0 \/ s.wild
Fail(s, e) == [s EXCEPT !.er = e]
Open(s) == [s EXCEPT !.wild = TRUE]
NewObj(s, x) == [s EXCEPT !.o = Append(@, x)]
Top(s) == Len(s.o)
Native(s, v) == s.o[v[2]][1] = "nat"
\* ---- tables
Entry(es, k) == {e \in es : e[1] = k}
TGet(s, t, k) == LET es == Entry(s.o[t[2]][2], Key(k)) IN IF es = {} THEN Nil ELSE (CHOOSE e \in es : TRUE)[3]
\* <<value as stored, state>>: a function stored in a table becomes a method of it
Bind(s, t, v) == LET f == s.o[v[2]]
                     m == IF f[1] = "lam" THEN <<"lam", f[2], f[3], [f[4] EXCEPT !["self"] = t]>> ELSE <<"nat", f[2], t>>
                 IN IF v[1] # "c" THEN <<v, s>> ELSE <<<<"c", Top(s) + 1>>, NewObj(s, m)>>
TPut(s, t, k, v) ==
  IF v = <<"?", "any">> THEN Open(s)
  ELSE LET b == Bind(s, t, v)
           es == s.o[t[2]][2]
       IN [b[2] EXCEPT !.o[t[2]] = <<"t", (es \ Entry(es, Key(k))) \cup (IF v = Nil THEN {} ELSE {<<Key(k), k, b[1]>>})>>]
Size(s, t) == Cardinality(s.o[t[2]][2])
\* ---- what a value looks like from outside
\* path: the tables around it; a table within itself is seen as how many levels up it is
RECURSIVE Seen(_, _, _)
Seen(s, v, path) == IF v[1] = "t" THEN LET at == {i \in 1..Len(path) : path[i] = v}
                                       IN IF at # {} THEN <<"up", Len(path) + 1 - CHOOSE i \in at : TRUE>>
                                          ELSE <<"t", {<<e[1], e[2], Seen(s, e[3], Append(path, v))>> : e \in s.o[v[2]][2]}>>
                 ELSE IF v[1] = "c" THEN <<"c", IF Native(s, v) THEN 0 ELSE 1>> ELSE IF v[1] = "u" THEN <<"u">> ELSE v
RECURSIVE Like(_, _)                     \* w computed, v seen
Like(w, v) ==
  CASE v[1] = "deep" -> TRUE
    [] w[1] = "t" -> v[1] = "t" /\ v[3] = Cardinality(w[2]) /\ Len(v[2]) = v[3]
                     /\ \A e \in w[2] : \E i \in 1..Len(v[2]) : Key(v[2][i][1]) = e[1] /\ Like(e[3], v[2][i][2])
    [] w[1] \in {"up", "u"} -> w = v
    [] w[1] = "?" /\ w[2] = "r" -> v[1] = "i" /\ w[3] <= v[2] /\ v[2] <= w[4]
    [] w[1] = "?" /\ w[2] = "rf" -> v[1] = "f" /\ (w[3] # <<>> => Within(v, w[3], w[4]))
    [] OTHER -> Match(w, v)
LikeAll(w, v) == Len(w) = Len(v) /\ \A i \in 1..Len(w) : Like(w[i], v[i])
\* the log entries added since the first n
Agrees(s, n) == Len(s.log) <= Len(s.want) /\ \A i \in n + 1..Len(s.log) : LikeAll(s.log[i], s.want[i])
\* ---- helpers of the library
TypeName == [t \in {"n", "i", "f", "s", "t", "c", "u"} |-> CASE t = "n" -> "nil" [] t = "i" -> "integer" [] t = "f" -> "float" [] t = "s" -> "string" [] t = "t" -> "table" [] t = "u" -> "userdata" [] OTHER -> "closure"]
IsNames == [x \in {"isnil", "isint", "isfloat", "isstring", "istable", "isuserdata", "isclosure"} |-> CASE x = "isnil" -> "n" [] x = "isint" -> "i" [] x = "isfloat" -> "f" [] x = "isstring" -> "s" [] x = "istable" -> "t" [] x = "isuserdata" -> "u" [] OTHER -> "c"]
TypeTag(v) == IF v[1] # "?" THEN v[1] ELSE IF v[2] \in {"f", "rf"} THEN "f" ELSE IF v[2] \in {"i", "b", "r"} THEN "i" ELSE "?"
NumArg1(v) == TypeTag(v) \in {"i", "f"}
\* floor of a finite float that is small enough, and what is cut off
FloorF(v) == IF v[3] >= 0 THEN (IF Fits(v[2], v[3]) THEN I(v[2] * P2[v[3]]) ELSE AnyI)
             ELSE IF v[3] < -30 THEN I(IF v[2] < 0 THEN -1 ELSE 0) ELSE I(v[2] \div P2[-v[3]])
Whole(v) == v[3] >= 0
CeilF(v) == IF Whole(v) THEN FloorF(v) ELSE I(FloorF(v)[2] + 1)
TruncF(v) == IF v[2] < 0 THEN CeilF(v) ELSE FloorF(v)
\* half away from zero
RoundF(v) == IF Whole(v) THEN FloorF(v)
             ELSE LET d == FloorF(<<"f", Abs(v[2]), v[3] + 1>>)          \* twice the value
                      n == (d[2] + 1) \div 2
                  IN IF Wild(d) THEN AnyI ELSE I(IF v[2] < 0 THEN -n ELSE n)
OnFloat(v, w) == IF Finite(v) THEN w ELSE AnyI
RECURSIVE Root(_, _, _)                  \* r with r * r = n, between lo and hi; 0 if there is none
Root(n, lo, hi) == IF lo > hi THEN 0 ELSE LET m == (lo + hi) \div 2 IN IF m * m = n THEN m ELSE IF m * m < n THEN Root(n, m + 1, hi) ELSE Root(n, lo, m - 1)
SqrtF(v) == IF v[2] = 0 THEN <<"f", 0, 0>>
            ELSE IF v[2] < 0 \/ (v[3] % 2) # 0 THEN AnyF
            ELSE LET r == Root(v[2], 1, 4096) IN IF r = 0 THEN AnyF ELSE <<"f", r, v[3] \div 2>>
SqrtF1(v) == LET f == IF v[1] \in {"i", "f"} /\ ~Wild(v) THEN ToF(v) ELSE AnyF IN IF Finite(f) THEN SqrtF(f) ELSE AnyF
\* the number at the start of a text: <<sign, digits, dot behind how many digits or -1, rest>>, spaces skipped
White == {" ", "\t", "\n"}
Ch(t, i) == IF i > Len(t) THEN "" ELSE SubSeq(t, i, i)
RECURSIVE Over(_, _, _)
Over(t, i, cs) == IF i <= Len(t) /\ Ch(t, i) \in cs THEN Over(t, i + 1, cs) ELSE i
ToInt(t) == LET i == Over(t, 1, White)
                j == IF Ch(t, i) \in {"+", "-"} THEN i + 1 ELSE i
                k == Over(t, j, Digits)
                n == DecInt(SubSeq(t, j, k - 1), 0)
            IN IF k = j THEN Nil ELSE IF n = -1 THEN AnyI ELSE I(IF Ch(t, i) = "-" THEN -n ELSE n)
ToFloat(t) == LET i == Over(t, 1, White)
                  j == IF Ch(t, i) \in {"+", "-"} THEN i + 1 ELSE i
                  k == Over(t, j, Digits)
                  d == Ch(t, k) = "."
                  l == IF d THEN Over(t, k + 1, Digits) ELSE k
                  ds == SubSeq(t, j, k - 1) \o (IF d THEN SubSeq(t, k + 1, l - 1) ELSE "")
                  v == Decimal(DecInt(ds, 0), IF d THEN l - k - 1 ELSE 0)
              IN IF Ch(t, j) \in {"i", "n", "I", "N"} \/ Ch(t, l) \in {"e", "E", "x", "X"} THEN <<"?", "any">>
                 ELSE IF ds = "" THEN Nil ELSE IF Ch(t, i) = "-" THEN FNeg(v) ELSE v
RECURSIVE JoinS(_)
JoinS(vs) == IF vs = <<>> THEN "" ELSE vs[1][2] \o JoinS(Tail(vs))
Draw(s, what) == [s EXCEPT !.rng = Append(@, what)]
\* the integers between a and b
\* random floats: between a and b (a rounding error beyond, at most), or open if they are out of reach
FBetween(a, b, h) ==
  LET c == FCmp(a, b)
      lo == IF c = -1 THEN a ELSE b
      hi == IF c = -1 THEN b ELSE a
      top(v) == IF v[2] = 0 THEN -99 ELSE Bits(Abs(v[2])) + v[3]
      e == <<"f", 1, (IF top(a) > top(b) THEN top(a) ELSE top(b)) - 20>>
      l == FAdd(lo, FNeg(e))
      u == FAdd(hi, e)
  IN IF c \notin {-1, 0, 1} \/ ~(Finite(a) /\ Finite(b)) THEN <<"?", "rf", <<>>, <<>>, h>>
     ELSE IF a[2] = 0 /\ b[2] = 0 THEN <<"?", "rf", a, b, h>>
     ELSE IF Wild(l) \/ Wild(u) THEN <<"?", "rf", <<>>, <<>>, h>> ELSE <<"?", "rf", l, u, h>>
Between(a, b, h) == IF a <= b THEN <<"?", "r", a, b, h>> ELSE <<"?", "r", b, a, h>>
Math1 == {"math.log", "math.log2", "math.log10", "math.exp", "math.sin", "math.cos", "math.tan", "math.asin", "math.acos"}
RECURSIVE Ev(_, _), EvAll(_, _, _), Fill(_, _, _), Call(_, _, _), Lib1(_, _, _, _), Lib2(_, _, _, _), Walk(_, _, _, _, _, _), Ex(_, _), ExAll(_, _), Inner(_, _), Loop(_, _, _, _), Copy(_, _, _), CopyAll(_, _, _, _), Lines(_, _, _)
\* ---- copies: <<value, state>>
\* path: the tables around it, <<original, copy>>; a table within itself becomes its copy
Copy(s, v, path) == IF v[1] = "c" THEN <<<<"c", Top(s) + 1>>, NewObj(s, s.o[v[2]])>>
                    ELSE IF v[1] # "t" THEN <<v, s>>
                    ELSE IF \E e \in path : e[1] = v THEN <<(CHOOSE e \in path : e[1] = v)[2], s>>
                    ELSE LET t == <<"t", Top(s) + 1>> IN <<t, CopyAll(NewObj(s, <<"t", {}>>), s.o[v[2]][2], t, path \cup {<<v, t>>})>>
CopyAll(s, es, t, path) ==
  IF es = {} THEN s
  ELSE LET e == CHOOSE e \in es : TRUE
           c == Copy(s, e[3], path)
       IN CopyAll([c[2] EXCEPT !.o[t[2]] = <<"t", @[2] \cup {<<e[1], e[2], c[1]>>}>>], es \ {e}, t, path)
\* ---- walking a table with a function: each entry once, in any order
\* kind: foreach, map, filter, reduce; out: result table or accumulator.
\* smap is the neighbours' map: it keeps every robot, also with the value nil; a table's map drops those
Step(s, f, kind, out, e) ==
  LET r == Call(s, f, IF kind = "reduce" THEN <<e[2], e[3], out>> ELSE <<e[2], e[3]>>)
      keep == IF kind \in {"map", "smap"} THEN r[1] ELSE e[3]
      drop == (kind = "map" /\ r[1] = Nil) \/ (kind = "filter" /\ False(r[1]))
  IN IF Stop(r[2]) THEN <<out, r[2]>>
     ELSE IF kind = "foreach" THEN <<out, r[2]>>
     ELSE IF kind = "reduce" THEN r
     ELSE IF Wild(r[1]) /\ kind = "filter" THEN <<out, Open(r[2])>>
     ELSE IF drop THEN <<out, r[2]>>
     ELSE <<out, [r[2] EXCEPT !.o[out[2]] = <<"t", @[2] \cup {<<e[1], e[2], keep>>}>>]>>
Walk(s, t, f, kind, out, todo) ==
  IF Stop(s) \/ todo = {} THEN <<out, s>>
  ELSE LET rs == [e \in todo |-> Step(s, f, kind, out, e)]
           fit == {e \in todo : Agrees(rs[e][2], Len(s.log))}
           e == IF fit = {} THEN CHOOSE x \in todo : TRUE ELSE CHOOSE x \in fit : TRUE
           r == rs[e]
       IN IF Cardinality(todo) > 1 /\ Cardinality(fit) > 1 THEN <<out, Open(s)>>
          ELSE IF r[2].o[t[2]] # s.o[t[2]] THEN <<out, Open(s)>>           \* changed while being walked
          ELSE Walk(r[2], t, f, kind, r[1], todo \ {e})
\* ---- files.  The last operation's error is left in the table io
Strerror == [e \in {0, 2, 9, 22} |-> CASE e = 0 -> "No error" [] e = 2 -> "No such file or directory" [] e = 9 -> "Bad file descriptor" [] OTHER -> "Invalid argument"]
IoErr(s, e) == LET t == s.g["io"]
               IN IF t[1] # "t" THEN Open(s) ELSE TPut(TPut(s, t, S("errno"), I(e)), t, S("error_message"), S(Strerror[e]))
Reads == {"r", "w+", "a+"}
Writes == {"w", "a", "w+", "a+"}
RECURSIVE HasCh(_, _)
HasCh(t, c) == t # "" /\ (Ch(t, 1) = c \/ HasCh(SubSeq(t, 2, Len(t)), c))
\* no directory is there
FOpen(s, name, mode) ==
  IF mode \in {"", "z", "q+"} THEN <<Nil, IoErr(s, 22)>>
  ELSE IF mode \notin Reads \cup Writes THEN <<Nil, Open(s)>>
  ELSE IF name = "" \/ (Len(name) > 3 /\ SubSeq(name, 1, 3) = "no/") \/ (mode = "r" /\ name \notin DOMAIN s.fs /\ ~HasCh(name, "/")) THEN <<Nil, IoErr(s, 2)>>
  ELSE IF HasCh(name, "/") THEN <<Nil, Open(s)>>
  ELSE IF \E i \in 1..Len(s.fh) : s.fh[i].n = name /\ s.fh[i].o /\ ({mode, s.fh[i].m} \cap Writes) # {} THEN <<Nil, Open(s)>>   \* who sees what when is left open
  ELSE LET s1 == IoErr(s, 0)
           t == <<"t", Top(s1) + 1>>
           h == <<"u", Len(s.fh) + 1>>
           s2 == NewObj(s1, <<"t", {<<S("handle"), S("handle"), h>>, <<S("name"), S("name"), S(name)>>}>>)
       IN <<t, [s2 EXCEPT !.fs = IF name \in DOMAIN @ /\ mode \in {"r", "a", "a+"} THEN @ ELSE (name :> "") @@ @,
                          !.fh = Append(@, [n |-> name, m |-> mode, p |-> 0, o |-> TRUE, l |-> "-"])]>>
RECURSIVE EndOf(_, _)                    \* where the line that holds position i ends
EndOf(t, i) == IF i > Len(t) \/ Ch(t, i) = "\n" THEN i ELSE EndOf(t, i + 1)
Lines(s, h, f) ==
  LET d == s.fh[h]
      t == s.fs[d.n]
      e == EndOf(t, d.p + 1)
      s1 == [s EXCEPT !.fh[h].p = IF e > Len(t) THEN Len(t) ELSE e, !.fh[h].l = "r"]
  IN IF Stop(s) THEN s
     ELSE IF ~d.o THEN IoErr(s, 9)
     ELSE IF d.m \notin Reads THEN IoErr(s, 9)
     ELSE IF d.l \in {"w", "?"} THEN Open(s)
     ELSE IF d.p >= Len(t) THEN IoErr([s EXCEPT !.fh[h].l = "e"], 0)
     ELSE Lines(Call(s1, f, <<S(SubSeq(t, d.p + 1, e - 1))>>)[2], h, f)
TextOf(s, v) == CASE v[1] = "n" -> "[nil]"
                  [] v[1] = "s" -> v[2]
                  [] v[1] = "t" -> "[table with " \o ToString(Size(s, v)) \o " elems]"
                  [] v[1] \in {"i", "f"} -> NumText(v)
                  [] OTHER -> "?"
RECURSIVE JoinT(_, _)
JoinT(s, vs) == IF vs = <<>> THEN "\n" ELSE TextOf(s, vs[1]) \o JoinT(s, Tail(vs))
FWrite(s, h, vs) ==
  LET d == s.fh[h]
      t == s.fs[d.n]
      p == IF d.m \in {"a", "a+"} THEN Len(t) ELSE d.p
      x == JoinT(s, vs)
      u == SubSeq(t, 1, p) \o x \o SubSeq(t, p + Len(x) + 1, Len(t))
  IN IF ~d.o \/ d.m \notin Writes THEN IoErr(s, 9)
     ELSE IF d.l = "r" \/ (\E i \in 1..Len(vs) : TextOf(s, vs[i]) = "?" \/ Wild(vs[i])) THEN Open(s)
     ELSE IoErr([s EXCEPT !.fs[d.n] = u, !.fh[h].p = p + Len(x), !.fh[h].l = "w"], 0)
\* ---- the libraries that scripts include (src/include): what they are documented to do
Bundled == [x \in {"string.charat", "string.indexoffirst", "string.indexoflast", "string.split", "table.cmp_number", "table.sort", "math.vec2.new", "math.vec2.newp", "math.vec2.add", "math.vec2.sub",
                    "math.vec2.scale", "math.vec2.dot", "math.vec2.rotate"} |-> 2]
           @@ [x \in {"table.max", "table.min", "table.maxkey", "table.minkey", "table.shuffle", "table.print", "math.vec2.length", "math.vec2.angle", "math.vec2.norm", "arrows.wrap", "arrows.begin", "arrows.next", "arrows.run",
                      "neighbors.collect", "neighbors.reset"} |-> 1]
           @@ [x \in {"table.swap"} |-> 3] @@ [x \in {"neighbors.got"} |-> 3]
BundleOf == ("string.bzz" :> <<"string", <<"charat", "indexoffirst", "indexoflast", "split">>>>)
            @@ ("table.bzz" :> <<"table", <<"max", "min", "maxkey", "minkey", "swap", "cmp_number", "sort", "shuffle", "print">>>>)
            @@ ("arrows.bzz" :> <<"arrows", <<"wrap", "begin", "run">>>>)
            @@ ("neighbors.bzz" :> <<"neighbors", <<"collect", "reset">>>>)
            @@ ("vec2.bzz" :> <<"math.vec2", <<"new", "newp", "length", "angle", "norm", "add", "sub", "scale", "dot", "rotate">>>>)
\* the tokens of t: longest stretches without a character of d
RECURSIVE Tokens(_, _, _)
Tokens(t, d, cur) == IF t = "" THEN (IF cur = "" THEN <<>> ELSE <<cur>>)
                     ELSE IF HasCh(d, Ch(t, 1)) THEN (IF cur = "" THEN <<>> ELSE <<cur>>) \o Tokens(SubSeq(t, 2, Len(t)), d, "")
                     ELSE Tokens(SubSeq(t, 2, Len(t)), d, cur \o Ch(t, 1))
\* a table with the values vs under 0, 1, ...; <<value, state>>
ListOf(s, vs) == <<<<"t", Top(s) + 1>>, NewObj(s, <<"t", {<<I(i - 1), I(i - 1), vs[i]>> : i \in 1..Len(vs)}>>)>>
PairOf(s, x, y) == <<<<"t", Top(s) + 1>>, NewObj(s, <<"t", {<<S("x"), S("x"), x>>, <<S("y"), S("y"), y>>}>>)>>
Nums(vs) == \A v \in vs : NumArg1(v) /\ ~Wild(v)
Best(vs, sign) == {v \in vs : \A w \in vs : Cmp(v, w) # -sign}
\* the values of t sorted by cmp; <<values, state>>.  cmp holds unless the first must come after the second
RECURSIVE InsertBy(_, _, _, _, _)
InsertBy(s, cmp, done, v, i) ==
  IF i > Len(done) THEN <<Append(done, v), s>>
  ELSE LET r == Call(s, cmp, <<v, done[i]>>)
       IN IF Stop(r[2]) \/ Wild(r[1]) THEN <<done, IF Stop(r[2]) THEN r[2] ELSE Open(r[2])>>
          ELSE IF ~False(r[1]) THEN <<SubSeq(done, 1, i - 1) \o <<v>> \o SubSeq(done, i, Len(done)), r[2]>>
          ELSE InsertBy(r[2], cmp, done, v, i + 1)
SortBy(s, cmp, vs) == FoldLeft(LAMBDA z, v : IF Stop(z[2]) THEN z ELSE InsertBy(z[2], cmp, z[1], v, 1), <<<<>>, s>>, vs)
XY(s, t, k) == TGet(s, t, S(k))
\* the arrow at the end of the chain that starts at t, and the functions along it
RECURSIVE EndOfArrow(_, _), RunArrow(_, _)
EndOfArrow(s, t) == IF TGet(s, t, S("n")) = Nil THEN t ELSE EndOfArrow(s, TGet(s, t, S("n")))
NewArrow(s, f) == LET t == <<"t", Top(s) + 1>>
                      s1 == TPut(NewObj(s, <<"t", {}>>), t, S("f"), f)
                  IN <<t, TPut(NewObj(s1, <<"nat", "arrows.next", Nil>>), t, S("next"), <<"c", Top(s1) + 1>>)>>
RunArrow(s, t) == IF Stop(s) \/ t = Nil THEN s
                  ELSE IF t[1] # "t" THEN Fail(s, eType)
                  ELSE LET r == Call(s, TGet(s, t, S("f")), <<>>)[2] IN RunArrow(r, IF Stop(r) THEN Nil ELSE TGet(r, t, S("n")))
Lib2(s, n, self, a) ==
  LET ts == TypeTag(a[1])
      es == IF ts = "t" THEN s.o[a[1][2]][2] ELSE {}
      vals == {e[3] : e \in es}
      keys == {e[2] : e \in es}
      of == IF n \in {"table.max", "table.min"} THEN vals ELSE keys
      best == Best(of, IF n \in {"table.max", "table.maxkey"} THEN 1 ELSE -1)
      len == Cardinality(es)
      seq == [i \in 1..len |-> TGet(s, a[1], I(i - 1))]
      t1 == a[1][2]
      t2 == a[2][2]
      at == {i \in 0..Len(t1) - Len(t2) : SubSeq(t1, i + 1, i + Len(t2)) = t2}
      vec(v) == TypeTag(v) = "t" /\ NumArg1(XY(s, v, "x")) /\ NumArg1(XY(s, v, "y"))
      arr(op, v, w) == Arith(op, v, w)
      two(x, y) == IF TypeError \in {x, y} \/ <<"?", "any">> \in {x, y} THEN <<Nil, Open(s)>> ELSE PairOf(s, x, y)
      one(x) == IF x \in {TypeError, <<"?", "any">>} THEN <<Nil, Open(s)>> ELSE <<x, s>>
      dot(v, w) == arr("add", arr("mul", XY(s, v, "x"), XY(s, w, "x")), arr("mul", XY(s, v, "y"), XY(s, w, "y")))
  IN CASE n = "string.charat" -> IF ts # "s" \/ TypeTag(a[2]) # "i" \/ Wild(a[2]) THEN <<Nil, Open(s)>> ELSE <<IF 0 <= a[2][2] /\ a[2][2] < Len(t1) THEN S(Ch(t1, a[2][2] + 1)) ELSE Nil, s>>
       [] n \in {"string.indexoffirst", "string.indexoflast"} ->
            IF ts # "s" \/ TypeTag(a[2]) # "s" THEN <<Nil, Open(s)>>
            ELSE IF t2 = "" THEN <<Nil, Open(s)>>
            ELSE <<IF at = {} THEN Nil ELSE I(CHOOSE i \in at : \A j \in at : IF n = "string.indexoffirst" THEN i <= j ELSE i >= j), s>>
       [] n = "string.split" -> IF ts # "s" \/ TypeTag(a[2]) # "s" THEN <<Nil, Open(s)>> ELSE LET w == Tokens(t1, t2, "") IN ListOf(s, [i \in 1..Len(w) |-> S(w[i])])
       [] n \in {"table.max", "table.min", "table.maxkey", "table.minkey"} ->
            IF ts # "t" THEN <<Nil, Fail(s, eType)>> ELSE IF ~Nums(of) THEN <<Nil, Open(s)>>
            ELSE IF of = {} THEN <<Nil, s>> ELSE IF Cardinality(best) # 1 THEN <<Nil, Open(s)>> ELSE <<CHOOSE v \in best : TRUE, s>>
       [] n = "table.swap" -> IF ts # "t" \/ ~KeyOk(a[2]) \/ ~KeyOk(a[3]) \/ Wild(a[2]) \/ Wild(a[3]) THEN <<Nil, Open(s)>>
                              ELSE LET x == TGet(s, a[1], a[2]) y == TGet(s, a[1], a[3])
                                   IN IF x[1] = "c" \/ y[1] = "c" \/ Cmp(a[2], a[3]) \in {8, 9} THEN <<Nil, Open(s)>>
                                      ELSE IF Key(a[2]) = Key(a[3]) THEN <<Nil, s>> ELSE <<Nil, TPut(TPut(s, a[1], a[2], y), a[1], a[3], x)>>
       [] n = "table.cmp_number" -> one(Compare("lte", a[1], a[2]))
       \* equal elements are only told apart by their order: left open
       [] n = "table.sort" ->
            IF ts # "t" \/ TypeTag(a[2]) # "c" THEN <<Nil, Open(s)>>
            ELSE IF \E i \in 1..len : seq[i] = Nil \/ Wild(seq[i]) \/ seq[i][1] = "c" THEN <<Nil, Open(s)>>
            ELSE LET r == SortBy(s, a[2], seq)
                     both == {<<i, j>> \in (1..len) \X (1..len) : i < j /\ r[1][i] # r[1][j] /\ ~False(Call(r[2], a[2], <<r[1][j], r[1][i]>>)[1])}
                 IN IF Stop(r[2]) THEN <<Nil, Open(s)>>
                    ELSE IF r[2].log # s.log THEN <<Nil, Open(s)>>
                    ELSE IF both # {} THEN <<Nil, Open(s)>>
                    ELSE <<Nil, [s EXCEPT !.o[a[1][2]] = <<"t", {<<I(i - 1), I(i - 1), r[1][i]>> : i \in 1..len}>>]>>
       \* some order of the elements; scripts sort them before they look
       [] n = "table.shuffle" -> IF ts # "t" THEN <<Nil, Open(s)>> ELSE <<Nil, s>>
       [] n = "math.vec2.new" -> PairOf(s, a[1], a[2])
       [] n \in {"math.vec2.newp", "math.vec2.rotate", "math.vec2.norm"} ->
            IF n = "math.vec2.newp" /\ ~(NumArg1(a[1]) /\ NumArg1(a[2])) THEN <<Nil, Open(s)>>
            ELSE IF n # "math.vec2.newp" /\ ~vec(a[1]) THEN <<Nil, Open(s)>>
            ELSE IF n = "math.vec2.rotate" /\ ~NumArg1(a[2]) THEN <<Nil, Open(s)>>
            ELSE IF n = "math.vec2.norm" THEN LET l == SqrtF1(dot(a[1], a[1])) IN two(arr("div", XY(s, a[1], "x"), l), arr("div", XY(s, a[1], "y"), l))
            ELSE PairOf(s, AnyF, AnyF)
       [] n \in {"math.vec2.add", "math.vec2.sub"} ->
            IF ~vec(a[1]) \/ ~vec(a[2]) THEN <<Nil, Open(s)>>
            ELSE LET op == IF n = "math.vec2.add" THEN "add" ELSE "sub" IN two(arr(op, XY(s, a[1], "x"), XY(s, a[2], "x")), arr(op, XY(s, a[1], "y"), XY(s, a[2], "y")))
       [] n = "math.vec2.scale" -> IF ~vec(a[1]) \/ ~NumArg1(a[2]) THEN <<Nil, Open(s)>> ELSE two(arr("mul", XY(s, a[1], "x"), a[2]), arr("mul", XY(s, a[1], "y"), a[2]))
       [] n = "math.vec2.dot" -> IF ~vec(a[1]) \/ ~vec(a[2]) THEN <<Nil, Open(s)>> ELSE one(dot(a[1], a[2]))
       [] n = "math.vec2.length" -> IF ~vec(a[1]) THEN <<Nil, Open(s)>> ELSE one(SqrtF1(dot(a[1], a[1])))
       [] n = "math.vec2.angle" -> IF ~vec(a[1]) THEN <<Nil, Open(s)>> ELSE one(AnyF)
       [] n \in {"arrows.wrap", "arrows.begin"} -> IF ts # "c" THEN <<Nil, Open(s)>> ELSE NewArrow(s, a[1])
       [] n = "arrows.next" -> IF ts # "c" THEN <<Nil, Open(s)>> ELSE LET r == NewArrow(s, a[1]) IN <<self, TPut(r[2], EndOfArrow(s, self), S("n"), r[1])>>
       [] n = "arrows.run" -> IF ts # "t" THEN <<Nil, Fail(s, eType)>> ELSE <<Nil, RunArrow(s, a[1])>>
       [] n = "neighbors.collect" -> IF ts # "s" THEN <<Nil, Fail(s, eType)>>
                                     ELSE <<Nil, [NewObj(s, <<"nat", "neighbors.got", Nil>>) EXCEPT !.lst = (t1 :> <<"c", Top(s) + 1>>) @@ @]>>
       [] n = "neighbors.got" -> LET m == TGet(s, s.g["neighbors"], S("msgs"))
                                     had == TGet(s, m, a[1])
                                     new == had = Nil
                                     s1 == IF new THEN TPut(NewObj(s, <<"t", {}>>), m, a[1], <<"t", Top(s) + 1>>) ELSE s
                                 IN IF m[1] # "t" THEN <<Nil, Open(s)>> ELSE IF had[1] \notin {"t", "n"} THEN <<Nil, Open(s)>>
                                    ELSE <<Nil, TPut(s1, TGet(s1, m, a[1]), a[3], a[2])>>
       [] n = "neighbors.reset" -> LET m == TGet(s, s.g["neighbors"], S("msgs")) IN IF m[1] # "t" \/ ts # "s" THEN <<Nil, Open(s)>> ELSE <<Nil, TPut(s, m, a[1], Nil)>>
       [] OTHER -> <<Nil, Open(s)>>
\* ---- the library.  Arguments a; <<result, state>>
Arity == [x \in {"type", "int", "float", "clone", "size", "string.length", "string.tostring", "string.toint", "string.tofloat", "math.abs", "math.floor", "math.ceil",
                 "math.round", "math.sqrt", "math.rng.setseed", "math.rng.exponential", "io.fclose", "io.fsize", "neighbors.ignore", "cid", "neighbors.get", "neighbors.foreach", "neighbors.map", "neighbors.filter"} \cup Math1 \cup DOMAIN IsNames |-> 1]
         @@ [x \in {"foreach", "map", "filter", "math.atan", "math.min", "math.max", "neighbors.reduce", "neighbors.listen", "neighbors.broadcast", "io.fopen", "io.fforeach"} |-> 2]
         @@ [x \in {"reduce"} |-> 3] @@ [x \in {"neighbors.count"} |-> 0]
NumArg(v) == TypeTag(v) \in {"i", "f"}
Methods == {"get", "filter", "kin", "nonkin", "foreach", "map", "reduce", "count"}
RECURSIVE PutAll(_, _, _)                \* the methods of a neighbour structure
PutAll(s, t, names) == IF names = {} THEN s ELSE LET n == CHOOSE n \in names : TRUE
                                                 IN PutAll(TPut(NewObj(s, <<"nat", "neighbors." \o n, Nil>>), t, S(n), <<"c", Top(s) + 1>>), t, names \ {n})
NewStruct(s) == PutAll(NewObj(s, <<"t", {}>>), <<"t", Top(s) + 1>>, Methods)
Lib1(s, n, self, a) ==
  LET Err(e) == <<Nil, Fail(s, e)>>
      Val(v) == IF v = <<"?", "any">> THEN <<Nil, Open(s)>> ELSE <<v, s>>
      tg(i) == TypeTag(a[i])
      poses == TGet(s, self, S("poses"))
      fd == IF n \in {"io.fclose", "io.fsize", "io.fforeach", "io.fwrite"} /\ Len(a) > 0 THEN (IF tg(1) = "t" THEN TGet(s, a[1], S("handle")) ELSE Nil) ELSE Nil
  IN IF n \in DOMAIN Arity /\ Len(a) # Arity[n] THEN Err(eLnum)
     ELSE IF \E i \in 1..Len(a) : a[i] = <<"?", "any">> THEN <<Nil, Open(s)>>
     ELSE
     CASE n \in {"rec", "log"} -> <<Nil, [s EXCEPT !.log = Append(@, [i \in 1..Len(a) |-> Seen(s, a[i], <<>>)])]>>
       [] n = "cid" -> Val(a[1])
       [] n = "cargs" -> Val(I(Len(a)))
       [] n = "cself" -> Val(self)
       [] n = "gcnow" -> Val(Nil)
       [] n = "type" -> Val(S(TypeName[tg(1)]))
       [] n \in DOMAIN IsNames -> Val(Truth(tg(1) = IsNames[n]))
       [] n = "int" -> IF tg(1) # "f" THEN Err(eType) ELSE Val(OnFloat(a[1], TruncF(a[1])))
       [] n = "float" -> IF tg(1) # "i" THEN Err(eType) ELSE Val(ToF(a[1]))
       [] n = "clone" -> Copy(s, a[1], {})
       [] n = "size" -> IF tg(1) # "t" THEN Err(eType) ELSE Val(I(Size(s, a[1])))
       [] n \in {"foreach", "map", "filter", "reduce"} ->
            IF tg(1) # "t" \/ tg(2) # "c" THEN Err(eType)
            ELSE LET s1 == IF n \in {"map", "filter"} THEN NewObj(s, <<"t", {}>>) ELSE s
                     out == IF n = "reduce" THEN a[3] ELSE IF n = "foreach" THEN Nil ELSE <<"t", Top(s) + 1>>
                 IN Walk(s1, a[1], a[2], n, out, s.o[a[1][2]][2])
       [] n = "string.length" -> IF tg(1) # "s" THEN Err(eType) ELSE Val(I(Len(a[1][2])))
       [] n = "string.sub" ->
            IF Len(a) \notin {2, 3} THEN Err(eLnum)
            ELSE IF tg(1) # "s" \/ tg(2) # "i" THEN Err(eType)
            ELSE IF Wild(a[2]) THEN <<Nil, Open(s)>>
            ELSE IF a[2][2] < 0 \/ a[2][2] >= Len(a[1][2]) THEN (IF Len(a) = 3 /\ tg(3) # "i" THEN <<Nil, Open(s)>> ELSE Val(Nil))
            ELSE IF Len(a) = 2 THEN Val(S(SubSeq(a[1][2], a[2][2] + 1, Len(a[1][2]))))
            ELSE IF tg(3) # "i" THEN Err(eType)
            ELSE IF Wild(a[3]) THEN <<Nil, Open(s)>>
            ELSE IF a[3][2] < a[2][2] THEN Val(Nil)
            ELSE Val(S(SubSeq(a[1][2], a[2][2] + 1, IF a[3][2] > Len(a[1][2]) THEN Len(a[1][2]) ELSE a[3][2])))
       [] n = "string.concat" -> IF Len(a) < 2 THEN Err(eLnum) ELSE IF \E i \in 1..Len(a) : tg(i) # "s" THEN Err(eType) ELSE Val(S(JoinS(a)))
       [] n = "string.tostring" ->
            IF ~NumArg(a[1]) THEN Val(Nil)
            ELSE IF Wild(a[1]) THEN <<Nil, Open(s)>> ELSE IF NumText(a[1]) = "?" THEN <<Nil, Open(s)>> ELSE Val(S(NumText(a[1])))
       [] n = "string.toint" -> IF tg(1) # "s" THEN Err(eType) ELSE Val(ToInt(a[1][2]))
       [] n = "string.tofloat" -> IF tg(1) # "s" THEN Err(eType) ELSE Val(ToFloat(a[1][2]))
       [] n = "math.abs" -> IF ~NumArg(a[1]) THEN Err(eType)
                            ELSE Val(IF Wild(a[1]) THEN a[1] ELSE IF tg(1) = "i" THEN (IF a[1][2] < 0 THEN INeg(a[1][2]) ELSE a[1])
                                     ELSE IF a[1][2] < 0 THEN FNeg(a[1]) ELSE a[1])
       [] n \in {"math.floor", "math.ceil", "math.round"} ->
            IF ~NumArg(a[1]) THEN Err(eType)
            ELSE IF tg(1) = "i" THEN Val(a[1])
            ELSE Val(OnFloat(a[1], IF n = "math.floor" THEN FloorF(a[1]) ELSE IF n = "math.ceil" THEN CeilF(a[1]) ELSE RoundF(a[1])))
       [] n = "math.sqrt" -> IF ~NumArg(a[1]) THEN Err(eType) ELSE LET f == ToF(a[1]) x == IF Finite(f) THEN SqrtF(f) ELSE AnyF IN Val(IF x = AnyF THEN Real1(<<n, f>>) ELSE x)
       [] n \in Math1 -> IF ~NumArg(a[1]) THEN Err(eType) ELSE Val(Real1(<<n, ToF(a[1])>>))
       [] n = "math.atan" -> IF ~NumArg(a[1]) \/ ~NumArg(a[2]) THEN Err(eType) ELSE Val(Real1(<<n, ToF(a[1]), ToF(a[2])>>))
       [] n \in {"math.min", "math.max"} ->
            LET c == Cmp(a[1], a[2])
            IN IF c \in {8, 9} \/ ~NumArg(a[1]) \/ ~NumArg(a[2]) THEN <<Nil, Open(s)>>
               ELSE Val(IF n = "math.min" THEN (IF c # 1 THEN a[1] ELSE a[2]) ELSE (IF c >= 0 THEN a[1] ELSE a[2]))
       [] n = "math.rng.setseed" -> IF tg(1) # "i" THEN Err(eType) ELSE <<Nil, [s EXCEPT !.rng = <<<<"seed", a[1]>>>>]>>
       [] n = "math.rng.uniform" ->
            LET s1 == Draw(s, <<n, a>>)
            IN IF Len(a) > 2 THEN Err(eSome)
               ELSE IF \E i \in 1..Len(a) : ~NumArg(a[i]) THEN Err(eType)
               ELSE IF \E i \in 1..Len(a) : Wild(a[i]) THEN <<Nil, Open(s)>>
               ELSE IF Len(a) = 0 THEN <<<<"?", "r", MinInt, MaxInt, s1.rng>>, s1>>
               ELSE IF \E i \in 1..Len(a) : tg(i) = "f" THEN <<IF Len(a) = 1 THEN FBetween(<<"f", 0, 0>>, a[1], s1.rng) ELSE FBetween(ToF(a[1]), ToF(a[2]), s1.rng), s1>>
               ELSE <<IF Len(a) = 1 THEN Between(0, a[1][2], s1.rng) ELSE Between(a[1][2], a[2][2], s1.rng), s1>>
       [] n = "math.rng.gaussian" -> IF Len(a) > 2 THEN Err(eSome) ELSE IF \E i \in 1..Len(a) : ~NumArg(a[i]) THEN Err(eType)
                                     ELSE LET s1 == Draw(s, <<n, a>>)
                                              \* farther than that from the mean no float of the source leads
                                              d == FMul(IF Len(a) > 0 THEN ToF(a[1]) ELSE <<"f", 1, 0>>, <<"f", 1, 4>>)
                                              m == IF Len(a) > 1 THEN ToF(a[2]) ELSE <<"f", 0, 0>>
                                          IN <<FBetween(FAdd(m, FNeg(d)), FAdd(m, d), s1.rng), s1>>
       [] n = "math.rng.exponential" -> IF ~NumArg(a[1]) THEN Err(eType) ELSE LET s1 == Draw(s, <<n, a>>) IN <<FBetween(<<"f", 0, 0>>, FMul(ToF(a[1]), <<"f", 1, 5>>), s1.rng), s1>>
       \* the neighbour structures: what the table holds under "poses"
       [] n \in {"neighbors.get", "neighbors.count", "neighbors.foreach", "neighbors.map", "neighbors.filter", "neighbors.reduce"} ->
            LET m == IF n = "neighbors.foreach" THEN "foreach" ELSE IF n = "neighbors.map" THEN "smap" ELSE IF n = "neighbors.filter" THEN "filter" ELSE "reduce"
                f == IF n = "neighbors.reduce" THEN a[1] ELSE IF n \in {"neighbors.get", "neighbors.count"} THEN Nil ELSE a[1]
                es == IF poses[1] = "t" THEN s.o[poses[2]][2] ELSE {}
            IN IF self[1] # "t" THEN Err(eType)
               ELSE IF poses[1] \notin {"t", "n"} THEN <<Nil, Open(s)>>
               ELSE IF n = "neighbors.get" THEN
                  IF Wild(a[1]) THEN <<Nil, Open(s)>> ELSE IF poses = Nil THEN Val(Nil) ELSE IF ~KeyOk(a[1]) THEN Err(eType) ELSE Val(TGet(s, poses, a[1]))
               ELSE IF n = "neighbors.count" THEN Val(I(Cardinality(es)))
               ELSE IF f[1] # "c" THEN (IF es = {} THEN <<Nil, Open(s)>> ELSE Err(eType))
               ELSE IF m \in {"foreach", "reduce"} THEN
                  IF es = {} THEN Val(IF m = "reduce" THEN a[2] ELSE Nil)
                  ELSE Walk(s, poses, f, m, IF m = "reduce" THEN a[2] ELSE Nil, es)
               ELSE LET t == <<"t", Top(s) + 1>>
                        s1 == NewStruct(s)
                        s2 == NewObj(s1, <<"t", {}>>)
                        out == <<"t", Top(s1) + 1>>
                        s3 == [s2 EXCEPT !.o[t[2]] = <<"t", @[2] \cup {<<S("poses"), S("poses"), out>>}>>]
                        w == IF es = {} THEN <<out, s3>> ELSE Walk(s3, poses, f, m, out, es)
                    IN <<t, w[2]>>
       [] n = "neighbors.listen" -> IF tg(1) # "s" \/ tg(2) # "c" THEN Err(eType) ELSE <<Nil, [s EXCEPT !.lst = (a[1][2] :> a[2]) @@ @]>>
       [] n = "neighbors.ignore" -> IF tg(1) # "s" THEN Err(eType) ELSE <<Nil, [s EXCEPT !.lst = [x \in DOMAIN @ \ {a[1][2]} |-> @[x]]]>>
       [] n = "neighbors.broadcast" -> IF tg(1) # "s" THEN Err(eType) ELSE Val(Nil)
       [] n \in DOMAIN Bundled -> IF Len(a) # Bundled[n] THEN <<Nil, Open(s)>> ELSE Lib2(s, n, self, a)
       [] n = "io.fopen" -> IF tg(1) # "s" \/ tg(2) # "s" THEN Err(eType) ELSE FOpen(s, a[1][2], a[2][2])
       [] n \in {"io.fclose", "io.fsize", "io.fforeach", "io.fwrite"} ->
            IF n = "io.fwrite" /\ Len(a) < 2 THEN Err(eLnum)
            ELSE IF tg(1) # "t" \/ fd[1] # "u" \/ (n = "io.fforeach" /\ tg(2) # "c") THEN Err(eType)
            ELSE LET h == fd[2]
                     d == s.fh[h]
                 IN IF n = "io.fclose" THEN <<Nil, IF d.o THEN IoErr([s EXCEPT !.fh[h].o = FALSE], 0) ELSE IoErr(s, 9)>>
                    ELSE IF n = "io.fsize" THEN IF d.o THEN <<I(Len(s.fs[d.n])), IoErr([s EXCEPT !.fh[h].l = IF d.m \in {"a", "a+"} THEN "?" ELSE "-"], 0)>> ELSE <<Nil, Open(s)>>
                    ELSE IF n = "io.fforeach" THEN <<Nil, Lines(s, h, a[2])>>
                    ELSE <<Nil, FWrite(s, h, Tail(a))>>
       [] OTHER -> <<Nil, Open(s)>>
\* ---- calls: <<result, state>>
Call(s, f, a) ==
  IF Stop(s) THEN <<Nil, s>>
  ELSE IF f[1] # "c" THEN (IF Wild(f) THEN <<Nil, Open(s)>> ELSE <<Nil, Fail(s, eType)>>)
  ELSE IF s.fuel = 0 \/ s.deep > 24 THEN <<Nil, Open(s)>>
  ELSE
  LET c == s.o[f[2]]
  IN IF c[1] = "nat" THEN Lib1([s EXCEPT !.fuel = @ - 1], c[2], c[3], a)
     ELSE
     LET ps == c[2]
         pset == {ps[i] : i \in 1..Len(ps)}
         ix(p) == CHOOSE i \in 1..Len(ps) : ps[i] = p
         env == [p \in pset |-> IF ix(p) > Len(a) THEN Miss ELSE a[ix(p)]] @@ c[4]
         r == ExAll(c[3], [s EXCEPT !.env = env, !.odd = Len(a) # Len(ps), !.ret = <<>>, !.fuel = @ - 1, !.deep = @ + 1])
     IN IF Cardinality(pset) # Len(ps) \/ "self" \in pset THEN <<Nil, Open(s)>>
        ELSE <<IF r.ret = <<>> THEN Nil ELSE r.ret[1], [r EXCEPT !.env = s.env, !.odd = s.odd, !.ret = s.ret, !.deep = s.deep]>>
\* ---- expressions: <<value, state>>
Both(v, s) == IF v = TypeError THEN <<Nil, Fail(s, eType)>> ELSE IF v = <<"?", "any">> THEN <<Nil, Open(s)>> ELSE <<v, s>>
Dyadic(op, a, b) ==
  CASE op \in {"add", "sub", "mul", "div", "mod", "pow"} -> Arith(op, a, b)
    [] op \in {"band", "bor", "lshift", "rshift"} -> Bitwise(op, a, b)
    [] op \in {"land", "lor"} -> IF Wild(a) \/ Wild(b) THEN AnyB
                                 ELSE Truth(IF op = "land" THEN ~False(a) /\ ~False(b) ELSE ~False(a) \/ ~False(b))
    [] OTHER -> Compare(op, a, b)
Monadic(op, a) == CASE op = "lnot" -> IF Wild(a) THEN AnyB ELSE Truth(False(a))
                    [] op = "unm" -> Neg(a)
                    [] OTHER -> IF ~IsInt(a) THEN TypeError ELSE IF Wild(a) THEN AnyI ELSE BNot(a[2])
Ev(e, s) ==
  IF Stop(s) THEN <<Nil, s>>
  ELSE
  CASE e[1] = "const" -> <<e[2], s>>
    [] e[1] = "id" -> IF e[2] \in DOMAIN s.env THEN (IF s.env[e[2]] = Miss THEN <<Nil, Fail(s, eLnum)>> ELSE <<s.env[e[2]], s>>)
                      ELSE IF e[2] \notin DOMAIN s.g THEN <<Nil, s>>
                      ELSE IF s.g[e[2]] = <<"opaque">> THEN <<Nil, Open(s)>> ELSE <<s.g[e[2]], s>>
    [] e[1] = "bin" -> LET a == Ev(e[3], s)
                           b == Ev(e[4], a[2])
                       IN IF Stop(b[2]) THEN b ELSE Both(Dyadic(e[2], a[1], b[1]), b[2])
    [] e[1] = "un" -> LET a == Ev(e[3], s) IN IF Stop(a[2]) THEN a ELSE Both(Monadic(e[2], a[1]), a[2])
    [] e[1] = "tab" -> <<<<"t", Top(s) + 1>>, Fill(NewObj(s, <<"t", {}>>), <<"t", Top(s) + 1>>, e[2])>>
    [] e[1] = "lam" -> IF s.odd THEN <<Nil, Open(s)>>
                       ELSE <<<<"c", Top(s) + 1>>, NewObj(s, <<"lam", e[2], e[3], s.env @@ ("self" :> Nil)>>)>>
    [] e[1] = "idx" -> LET t == Ev(e[2], s)
                           k == Ev(e[3], t[2])
                       IN IF Stop(k[2]) THEN k
                          ELSE IF t[1][1] # "t" THEN (IF t[1] = <<"?", "any">> THEN <<Nil, Open(k[2])>> ELSE <<Nil, Fail(k[2], eType)>>)
                          ELSE IF Wild(k[1]) THEN <<Nil, Open(k[2])>>
                          ELSE IF ~KeyOk(k[1]) THEN <<Nil, Fail(k[2], eType)>> ELSE <<TGet(k[2], t[1], k[1]), k[2]>>
    [] e[1] = "call" -> LET f == Ev(e[2], s)
                            a == EvAll(e[3], f[2], <<>>)
                        IN IF Stop(a[2]) THEN <<Nil, a[2]>> ELSE Call(a[2], f[1], a[1])
EvAll(es, s, acc) == FoldLeft(LAMBDA z, e : LET r == Ev(e, z[2]) IN <<Append(z[1], r[1]), r[2]>>, <<acc, s>>, es)
Fill(s, t, es) == FoldLeft(LAMBDA z, e : IF Stop(z) THEN z
                                         ELSE LET r == Ev(e[2], z)
                                              IN IF Stop(r[2]) THEN r[2] ELSE IF Wild(e[1]) THEN Open(r[2]) ELSE TPut(r[2], t, e[1], r[1]), s, es)
\* ---- statements
Short(s) == \E x \in DOMAIN s.env : s.env[x] = Miss
Inner(b, s) ==                           \* the body of an if or a loop
  LET s1 == [s EXCEPT !.env = @ @@ ("self" :> Nil)]
      r == IF b[1] # "block" THEN Ex(b, s) ELSE IF b[2] = <<>> THEN s ELSE ExAll(b[2], s1)
  IN IF Stop(r) THEN r ELSE [r EXCEPT !.env = [x \in DOMAIN s.env |-> r.env[x]]]
\* one round: z is <<state, over?>>
Round1(c, u, b, z) ==
  LET s == z[1]
      r == Ev(c, [s EXCEPT !.fuel = @ - 1])
  IN IF z[2] THEN z
     ELSE IF Stop(s) \/ s.ret # <<>> THEN <<s, TRUE>>
     ELSE IF s.fuel = 0 THEN <<Open(s), TRUE>>
     ELSE IF Stop(r[2]) THEN <<r[2], TRUE>> ELSE IF Wild(r[1]) THEN <<Open(r[2]), TRUE>> ELSE IF False(r[1]) THEN <<r[2], TRUE>>
     ELSE <<Ex(u, Inner(b, r[2])), FALSE>>
Some == [i \in 1..6 |-> i]
Loop(c, u, b, s) == LET z == FoldLeft(LAMBDA y, i : Round1(c, u, b, y), <<s, FALSE>>, Some) IN IF z[2] THEN z[1] ELSE Loop(c, u, b, z[1])
Global(s) == s.deep = 0 /\ "self" \notin DOMAIN s.env
Store(s, x, v) == IF x \in DOMAIN s.env THEN [s EXCEPT !.env[x] = v] ELSE [s EXCEPT !.g = (x :> v) @@ @]
Ex(st, s) ==
  IF Stop(s) \/ s.ret # <<>> THEN s
  ELSE
  CASE st[1] \in {"skip", "fun"} -> s
    [] st[1] = "at" -> LET r == Ex(st[3], s) IN IF r.er # 0 /\ r.at = <<>> THEN [r EXCEPT !.at = st[2]] ELSE r
    [] st[1] = "block" -> Inner(st, s)
    [] st[1] = "var" -> LET s0 == IF Global(s) THEN s ELSE [s EXCEPT !.env = (st[2] :> Nil) @@ @]
                            r == IF st[3] = <<>> THEN <<Nil, s0>> ELSE Ev(st[3], s0)
                        IN IF ~Global(s) /\ Short(s) THEN Open(s)
                           ELSE IF Stop(r[2]) THEN r[2] ELSE Store(r[2], st[2], r[1])
    [] st[1] = "asg" ->
         IF st[2][1] = "id" THEN
            IF st[2][2] \in DOMAIN s.env /\ Short(s) THEN Open(s)
            ELSE LET r == Ev(st[3], s) IN IF Stop(r[2]) THEN r[2] ELSE Store(r[2], st[2][2], r[1])
         ELSE LET t == Ev(st[2][2], s)
                  k == Ev(st[2][3], t[2])
                  r == Ev(st[3], k[2])
              IN IF Stop(r[2]) THEN r[2]
                 ELSE IF t[1][1] # "t" THEN (IF t[1] = <<"?", "any">> THEN Open(r[2]) ELSE Fail(r[2], eType))
                 ELSE IF Wild(k[1]) THEN Open(r[2])
                 ELSE IF ~KeyOk(k[1]) THEN Fail(r[2], eType) ELSE TPut(r[2], t[1], k[1], r[1])
    [] st[1] = "do" -> Ev(st[2], s)[2]
    [] st[1] = "ret" -> LET r == IF st[2] = <<>> THEN <<Nil, s>> ELSE Ev(st[2], s)
                        IN IF Stop(r[2]) THEN r[2] ELSE IF s.deep = 0 THEN Fail(r[2], eStack) ELSE [r[2] EXCEPT !.ret = <<r[1]>>]
    [] st[1] = "if" -> LET c == Ev(st[2], s)
                       IN IF Stop(c[2]) THEN c[2] ELSE IF Wild(c[1]) THEN Open(c[2]) ELSE Inner(IF False(c[1]) THEN st[4] ELSE st[3], c[2])
    [] st[1] = "while" -> Loop(st[2], <<"skip">>, st[3], s)
    [] st[1] = "for" -> Loop(st[3], st[4], st[5], Ex(st[2], s))
ExAll(ss, s) == FoldLeft(LAMBDA z, st : Ex(st, z), s, ss)
\* ---- the functions a program defines exist before it runs
RECURSIVE Funs(_)
FunsOf(b) == CASE b[1] = "fun" -> <<b>>
               [] b[1] = "at" -> Funs(<<b[3]>>)
               [] b[1] = "if" -> Funs(<<b[3], b[4]>>)
               [] b[1] = "while" -> Funs(<<b[3]>>)
               [] b[1] = "for" -> Funs(<<b[5]>>)
               [] OTHER -> <<>>
Funs(ss) == IF ss = <<>> THEN <<>> ELSE FunsOf(ss[1]) \o Funs(Tail(ss))
RECURSIVE Define(_, _)
Define(s, fs) == IF fs = <<>> THEN s
                 ELSE LET s1 == NewObj(s, <<"lam", fs[1][3], fs[1][4], ("self" :> Nil)>>)
                      IN Define([s1 EXCEPT !.g = (fs[1][2] :> <<"c", Top(s1)>>) @@ @], Tail(fs))
\* ---- the machine before the program: what the library offers
Plain == <<"rec", "log", "cid", "cargs", "cself", "gcnow", "type", "int", "float", "clone", "size", "foreach", "map", "reduce", "filter",
           "isnil", "isint", "isfloat", "isstring", "istable", "isclosure", "isuserdata">>
IoFuns == <<"fopen", "fclose", "fsize", "fforeach", "fwrite">>
StrFuns == <<"length", "sub", "concat", "tostring", "toint", "tofloat">>
MathFuns == <<"abs", "floor", "ceil", "round", "log", "log2", "log10", "exp", "sqrt", "sin", "cos", "tan", "asin", "acos", "atan", "min", "max">>
RngFuns == <<"setseed", "uniform", "gaussian", "exponential">>
NbrFuns == <<"get", "filter", "kin", "nonkin", "foreach", "map", "reduce", "count", "broadcast", "listen", "ignore">>
RECURSIVE Lib(_, _, _, _)
Lib(s, t, pre, names) == IF names = <<>> THEN s
                         ELSE Lib(TPut(NewObj(s, <<"nat", pre \o names[1], Nil>>), t, S(names[1]), <<"c", Top(s) + 1>>), t, pre, Tail(names))
WithTable(s, g, pre, names) == LET t == <<"t", Top(s) + 1>> s1 == Lib(NewObj(s, <<"t", {}>>), t, pre, names)
                               IN [s1 EXCEPT !.g = (g :> t) @@ @]
Pi == <<"f", 13176795, -22>>
Boot ==
  LET s0 == [g |-> <<>>, o |-> [i \in 1..Len(Plain) |-> <<"nat", Plain[i], Nil>>], env |-> <<>>, odd |-> FALSE, log |-> <<>>, er |-> 0, at |-> <<>>, wild |-> FALSE,
             ret |-> <<>>, fuel |-> 0, deep |-> 0, want |-> <<>>, rng |-> <<<<"clock">>>>, fs |-> <<>>, fh |-> <<>>, lst |-> <<>>]
      s1 == [s0 EXCEPT !.g = [n \in {Plain[i] : i \in 1..Len(Plain)} |-> <<"c", CHOOSE i \in 1..Len(Plain) : Plain[i] = n>>]
                             @@ [n \in {"swarm", "stigmergy"} |-> <<"opaque">>]]
      s2 == WithTable(WithTable(WithTable(s1, "string", "string.", StrFuns), "math", "math.", MathFuns), "rng", "math.rng.", RngFuns)
      s3 == TPut(TPut(s2, s2.g["math"], S("rng"), s2.g["rng"]), s2.g["math"], S("pi"), Pi)
      s4 == IoErr(WithTable(WithTable(s3, "neighbors", "neighbors.", NbrFuns), "io", "io.", IoFuns), 0)
  IN [s4 EXCEPT !.g = ("id" :> I(1)) @@ [n \in DOMAIN @ \ {"rng"} |-> @[n]]]
\* ---- what the host does
Begin(s, want) == [s EXCEPT !.log = <<>>, !.want = want, !.fuel = 3000, !.env = <<>>, !.odd = FALSE, !.ret = <<>>, !.deep = 0]
\* with libraries: their text stands for what they are documented to define
WithLib(s, f) ==
  LET b == BundleOf[f]
      vec == b[1] = "math.vec2"
      s0 == IF vec \/ b[1] \notin DOMAIN s.g THEN NewObj(s, <<"t", {}>>) ELSE s
      t == IF s0 = s THEN s.g[b[1]] ELSE <<"t", Top(s0)>>
      s1 == Lib(s0, t, b[1] \o ".", b[2])
  IN IF vec THEN TPut(s1, s.g["math"], S("vec2"), t)
     ELSE IF b[1] = "neighbors" THEN TPut(NewObj(s1, <<"t", {}>>), t, S("msgs"), <<"t", Top(s1) + 1>>)
     ELSE [s1 EXCEPT !.g = (b[1] :> t) @@ @]
LoadIn(p, want, fs, libs) == ExAll(p.stats, Begin(Define([FoldLeft(WithLib, Boot, libs) EXCEPT !.fs = fs], Funs(p.stats)), want))
Load(p, want) == LoadIn(p, want, <<>>, <<>>)
\* a robot's message on a topic arrives
Hear(s, from, topic, v, want) ==
  LET b == Begin(s, want)
  IN IF s.er # 0 THEN [s EXCEPT !.log = <<>>] ELSE IF topic \notin DOMAIN s.lst THEN b ELSE Call(b, s.lst[topic], <<S(topic), v, I(from)>>)[2]
HostCall(s, f, a, want) == LET b == Begin(s, want)
                               v == IF f \in DOMAIN b.g THEN b.g[f] ELSE Nil
                           IN IF s.er # 0 THEN <<Nil, [s EXCEPT !.log = <<>>]>> ELSE IF v = <<"opaque">> THEN <<Nil, Open(b)>> ELSE Call(b, v, a)
\* ---- what is reachable, up to the names of objects: objects are called by a shortest way to them
Held(o) == CASE o[1] = "t" -> {<<e[1], e[3]>> : e \in o[2]}
             [] o[1] = "lam" -> {<<<<"$", x>>, o[4][x]>> : x \in DOMAIN o[4]}
             [] OTHER -> {<<<<"$", "self">>, o[3]>>}
IsObj(v) == v[1] \in {"t", "c"}
RECURSIVE Ways(_, _, _)
Ways(s, w, front) ==
  LET next == UNION {{<<c[2][2], Append(w[o], c[1])>> : c \in {c \in Held(s.o[o]) : IsObj(c[2])}} : o \in front}
      new == {c[1] : c \in next} \ DOMAIN w
  IN IF new = {} THEN w ELSE Ways(s, w @@ [o \in new |-> CHOOSE p \in {c[2] : c \in {c \in next : c[1] = o}} : TRUE], new)
Canon(s) ==
  LET gs == {x \in DOMAIN s.g : IsObj(s.g[x])}
      first == {s.g[x][2] : x \in gs}
      w == Ways(s, [o \in first |-> <<<<"$", CHOOSE x \in gs : s.g[x][2] = o>>>>], first)
      Nm(v) == IF IsObj(v) THEN <<v[1], w[v[2]]>> ELSE v
  IN <<[x \in DOMAIN s.g |-> Nm(s.g[x])],
       {<<w[o], s.o[o][1], IF s.o[o][1] = "lam" THEN <<s.o[o][2], s.o[o][3]>> ELSE <<>>, {<<c[1], Nm(c[2])>> : c \in Held(s.o[o])}>> : o \in DOMAIN w}>>
NbrReset(s) == LET t == s.g["neighbors"] IN TPut(NewObj(s, <<"t", {}>>), t, S("poses"), <<"t", Top(s) + 1>>)
NbrAdd(s, r, d, az, el) ==
  LET t == s.g["neighbors"]
      p0 == TGet(s, t, S("poses"))
      s1 == IF p0 = Nil THEN NbrReset(s) ELSE s
      p == TGet(s1, t, S("poses"))
      e == <<"t", Top(s1) + 1>>
      s2 == NewObj(s1, <<"t", {<<S("distance"), S("distance"), d>>, <<S("azimuth"), S("azimuth"), az>>, <<S("elevation"), S("elevation"), el>>}>>)
  IN TPut(s2, p, I(r), e)
=============================================================================
