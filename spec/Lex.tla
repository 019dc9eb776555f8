-------------------------------- MODULE Lex ---------------------------------
(* The lexical rules of Buzz: characters to tokens.                        *)
(*                                                                         *)
(* Files: a function from file names to sequences of one-character strings.*)
(* Lex(files, main) is [toks, bad]: the tokens of the program, files       *)
(* spliced in place, and where a lexical error ended the reading           *)
(* (<<>> or <<file, line>>).  A token is <<kind, text, file, line, col>>,  *)
(* columns from 0 on, -1 behind a text over several lines; the last one is *)
(* <<"eof", "", main, 0, 0>>.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Letters == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z",
            "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z"}
Blank == {" ", "\t", "\r"}
IdChar == Letters \cup Digits \cup {"_"}
Quote == {"'", "\""}
Single == {"{", "}", "(", ")", "[", "]", ",", ".", "%", "^"}
Keyword == [k \in {"var", "if", "else", "function", "return", "for", "while", "nil", "not"} |-> k]
           @@ [k \in {"and", "or"} |-> "andor"]
\* Reading one file, a character at a time.  z: m what is being read, b its text so far, q the quote, n the line it began on,
\* l the current line, c the current column, d the column it began at, f the file, toks; the empty string stands for the end of the file.
Put(z, k, x, n, d) == [z EXCEPT !.m = "go", !.b = "", !.toks = Append(@, <<k, x, z.f, n, d>>)]
Add(z, k, x) == Put(z, k, x, z.n, z.d)         \* what was being read
One(z, k, x) == Put(z, k, x, z.l, z.c)         \* a single character
Wrong(z, n) == [z EXCEPT !.m = "bad", !.toks = Append(@, <<"bad", "", z.f, n, 0>>)]
Read(z, m, c) == [z EXCEPT !.m = m, !.b = c, !.n = z.l, !.d = z.c]
Start(z, c) ==
  CASE c = "" \/ c \in Blank -> z
    [] c = "#" -> [z EXCEPT !.m = "com"]
    [] c = "\n" -> [One(z, "end", "") EXCEPT !.l = @ + 1, !.c = -1]
    [] c = ";" -> One(z, "end", "")
    [] c \in Single -> One(z, c, c)
    [] c \in Digits -> Read(z, "num", c)
    [] c \in Letters -> Read(z, "id", c)
    [] c \in {"=", "!", "<", ">"} -> Read(z, "op", c)
    [] c \in {"+", "-"} -> One(z, "sign", c)
    [] c \in {"*", "/"} -> One(z, "muldiv", c)
    [] c \in {"&", "|"} -> One(z, "bits", c)
    [] c \in Quote -> [Read(z, "str", "") EXCEPT !.q = c]
    [] OTHER -> Wrong(z, z.l)
RECURSIVE DotIn(_)
DotIn(s) == s # "" /\ (SubSeq(s, 1, 1) = "." \/ DotIn(SubSeq(s, 2, Len(s))))
Char(z, c) ==
  CASE z.m = "go" -> Start(z, c)
    [] z.m = "bad" -> z
    [] z.m = "com" -> IF c \in {"\n", ""} THEN Start([z EXCEPT !.m = "go"], c) ELSE z
    [] z.m = "num" -> IF c \in Digits \/ (c = "." /\ ~DotIn(z.b)) THEN [z EXCEPT !.b = @ \o c] ELSE Start(Add(z, "num", z.b), c)
    [] z.m = "id" -> IF c \in IdChar THEN [z EXCEPT !.b = @ \o c]
                     ELSE IF z.b # "include" THEN Start(Add(z, IF z.b \in DOMAIN Keyword THEN Keyword[z.b] ELSE "id", z.b), c)
                     ELSE IF c \in Blank THEN [z EXCEPT !.m = "inc"] ELSE IF c \in Quote THEN [z EXCEPT !.m = "file", !.b = "", !.q = c] ELSE Wrong(z, z.n)
    [] z.m = "inc" -> IF c \in Blank THEN z ELSE IF c \in Quote THEN [z EXCEPT !.m = "file", !.b = "", !.q = c] ELSE Wrong(z, z.n)
    [] z.m = "file" -> IF c = z.q THEN Add(z, "include", z.b) ELSE IF c \in {"\n", ""} THEN Wrong(z, z.n) ELSE [z EXCEPT !.b = @ \o c]
    [] z.m = "op" -> IF c = "=" THEN Add(z, "cmp", z.b \o "=")
                     ELSE IF z.b = c /\ c \in {"<", ">"} THEN Add(z, "shift", z.b \o c)
                     ELSE Start(Add(z, IF z.b \in {"<", ">"} THEN "cmp" ELSE z.b, z.b), c)
    [] z.m = "str" -> IF c = z.q THEN Add(z, "str", z.b)
                      ELSE IF c = "" THEN Wrong(z, z.n)
                      ELSE IF c = "\\" THEN [z EXCEPT !.m = "esc"]
                      ELSE [z EXCEPT !.b = @ \o c, !.l = IF c = "\n" THEN @ + 1 ELSE @, !.c = IF c = "\n" THEN -9999 ELSE @]
    [] z.m = "esc" -> IF c = "" THEN Wrong(z, z.n)
                      ELSE [z EXCEPT !.m = "str", !.b = @ \o (CASE c = "n" -> "\n" [] c = "t" -> "\t" [] OTHER -> c), !.l = IF c = "\n" THEN @ + 1 ELSE @, !.c = IF c = "\n" THEN -9999 ELSE @]
Feed(z, c) == LET y == Char(z, c) IN [y EXCEPT !.c = @ + 1]
Scan(f, t) == FoldLeft(Feed, [m |-> "go", b |-> "", q |-> "", n |-> 1, l |-> 1, c |-> 0, d |-> 0, f |-> f, toks |-> <<>>], Append(t, "")).toks
\* the tokens of the program: every file once, where it is first included.  z: toks, seen, bad
RECURSIVE Splice(_, _, _)
Splice(files, f, z) ==
  FoldLeft(LAMBDA y, k : IF y.bad # <<>> THEN y
                         ELSE IF k[1] = "bad" THEN [y EXCEPT !.bad = <<k[3], k[4]>>]
                         ELSE IF k[1] # "include" THEN [y EXCEPT !.toks = Append(@, k)]
                         ELSE IF k[2] \notin DOMAIN files THEN [y EXCEPT !.bad = <<k[3], k[4]>>]
                         ELSE IF k[2] \in y.seen THEN y
                         ELSE Splice(files, k[2], [y EXCEPT !.seen = @ \cup {k[2]}]), z, Scan(f, files[f]))
Lex(files, main) == LET z == Splice(files, main, [toks |-> <<>>, seen |-> {main}, bad |-> <<>>])
                    IN [toks |-> Append(z.toks, <<"eof", "", main, 0, 0>>), bad |-> z.bad]
=============================================================================
