------------------------------ MODULE FileGen -------------------------------
(* Every sequence of file operations over two variables and one file, up   *)
(* to a depth; the sequences are printed and run as scripts.               *)
(* GEN names a JSON file: alphabet (records: o, v, m), depth, text         *)
(* (<<>> or <<what is in the file before>>).                               *)
EXTENDS Lang, Json, IOUtils
Conf == JsonDeserialize(IOEnv.GEN)
Alpha == Conf.alphabet
VARIABLES s, v, h, put, rd
vars == <<s, v, h, put, rd>>
Fresh == Begin([Boot EXCEPT !.fs = IF Conf.text = <<>> THEN <<>> ELSE "fa" :> Conf.text[1]], <<>>)
Rec == Fresh.g["rec"]
Do(a) ==                                 \* <<value, state>>
  LET x == v[a.v]
  IN CASE a.o = "open" -> Lib1(s, "io.fopen", Nil, <<S("fa"), S(a.m)>>)
       [] a.o = "write" -> Lib1(s, "io.fwrite", Nil, <<x, S(a.m)>>)
       [] a.o = "read" -> Lib1(s, "io.fforeach", Nil, <<x, Rec>>)
       [] a.o = "size" -> Lib1(s, "io.fsize", Nil, <<x>>)
       [] a.o = "close" -> Lib1(s, "io.fclose", Nil, <<x>>)
File(x) == s.fh[TGet(s, x, S("handle"))[2]]
Init == s = Fresh /\ v = [x \in {"f", "g"} |-> Nil] /\ h = <<>> /\ put = Conf.text /\ rd = <<>>
Next == /\ Len(h) < Conf.depth /\ ~Stop(s)
        /\ \E i \in 1..Len(Alpha) :
             LET a == Alpha[i]
                 r == Do(a)
                 done == TGet(r[2], r[2].g["io"], S("errno")) = I(0)
             IN /\ (a.o = "open" \/ v[a.v] # Nil)
                /\ ~r[2].wild
                /\ h' = Append(h, i)
                /\ s' = [r[2] EXCEPT !.log = <<>>]
                /\ v' = IF a.o = "open" THEN [v EXCEPT ![a.v] = r[1]] ELSE v
                \* what was put into the file since it was last emptied
                /\ put' = IF ~done THEN put ELSE IF a.o = "open" THEN (IF a.m \in {"w", "w+"} THEN <<"">> ELSE IF put = <<>> THEN <<"">> ELSE put)
                          ELSE IF a.o = "write" THEN <<put[1] \o a.m \o "\n">> ELSE put
                /\ rd' = IF a.o = "read" /\ done THEN <<File(v[a.v]).p, r[2].log>> ELSE <<>>
                /\ PrintT(<<"H", ToString(h')>>)
Spec == Init /\ [][Next]_vars
\* nothing that was written is lost, nothing else is in the file
Kept == Stop(s) \/ (IF put = <<>> THEN "fa" \notin DOMAIN s.fs ELSE s.fs["fa"] = put[1])
\* reading yields the rest of the file, line by line
RECURSIVE Flat(_)
Flat(ls) == IF ls = <<>> THEN "" ELSE ls[1][1][2] \o "\n" \o Flat(Tail(ls))
ReadAll == rd = <<>> \/ LET t == SubSeq(s.fs["fa"], rd[1] + 1, Len(s.fs["fa"])) u == Flat(rd[2]) IN t = u \/ t \o "\n" = u
\* a failure is reported and changes no file
Told == [][(TGet(s', s'.g["io"], S("errno")) # I(0)) => (s'.fs = s.fs /\ Len(s'.fh) = Len(s.fh))]_vars
=============================================================================
