------------------------------- MODULE LangGen ------------------------------
(* Every sequence of tokens from a small alphabet that can still become a  *)
(* program, and every way to leave that set by one token.  Prints them, to *)
(* be given to the real compiler; checks on the way that a tree written    *)
(* out with all its parentheses is read as the same tree.                  *)
EXTENDS Parse, Json, IOUtils
Conf == JsonDeserialize(IOEnv.GEN)       \* pre, post, alphabet: tokens <<kind, text>>; depth; whole: print complete programs only
VARIABLES h, alive
vars == <<h, alive>>
Toks(x) == [i \in 1..Len(x) |-> <<x[i][1], x[i][2], "m", 1, 0>>]
End == <<<<"eof", "", "m", 0, 0>>>>
Sofar(g) == Toks(Conf.pre \o [i \in 1..Len(g) |-> Conf.alphabet[g[i]]])
Phrase(t) == Grammar(t, FALSE)["Stats", 1]
\* [ok, live, tree]: a program; the beginning of one
Look(t0) == LET t == Squeeze(t0 \o End)
                r == Phrase(t)
                s == EStats(r[1], {}, TRUE)
            IN IF Bad(r) THEN [ok |-> FALSE, live |-> r[1][2] = Len(t), tree |-> <<>>]
               ELSE IF s[1] # 0 THEN [ok |-> FALSE, live |-> FALSE, tree |-> <<>>]
               ELSE IF K(t, r[2]) # "eof" THEN [ok |-> FALSE, live |-> FALSE, tree |-> <<>>]
               ELSE [ok |-> TRUE, live |-> TRUE, tree |-> r[1]]
Whole(g) == Look(Sofar(g) \o Toks(Conf.post))
Init == h = <<>> /\ alive = TRUE
Next == /\ Len(h) < Conf.depth /\ alive
        /\ \E i \in 1..Len(Conf.alphabet) :
             /\ h' = Append(h, i)
             /\ alive' = Look(Sofar(h')).live
             /\ IF Conf.whole => Whole(h').ok THEN PrintT(<<"H", ToString(h')>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
\* ---- written out in full
OpTok == [o \in {"add", "sub", "mul", "div", "mod", "pow", "band", "bor", "lshift", "rshift", "land", "lor", "eq", "neq", "lt", "lte", "gt", "gte"} |->
          CASE o = "add" -> <<"sign", "+">> [] o = "sub" -> <<"sign", "-">> [] o = "mul" -> <<"muldiv", "*">> [] o = "div" -> <<"muldiv", "/">> [] o = "mod" -> <<"%", "%">>
            [] o = "pow" -> <<"^", "^">> [] o = "band" -> <<"bits", "&">> [] o = "bor" -> <<"bits", "|">> [] o = "lshift" -> <<"shift", "<<">> [] o = "rshift" -> <<"shift", ">>">>
            [] o = "land" -> <<"andor", "and">> [] o = "lor" -> <<"andor", "or">> [] o = "eq" -> <<"cmp", "==">> [] o = "neq" -> <<"cmp", "!=">> [] o = "lt" -> <<"cmp", "<">>
            [] o = "lte" -> <<"cmp", "<=">> [] o = "gt" -> <<"cmp", ">">> [] OTHER -> <<"cmp", ">=">>]
UnTok == [o \in {"lnot", "unm", "bnot"} |-> CASE o = "lnot" -> <<"not", "not">> [] o = "unm" -> <<"sign", "-">> [] OTHER -> <<"!", "!">>]
RECURSIVE Full(_), FullArgs(_)
Wrap(x) == <<<<"(", "(">>>> \o x \o <<<<")", ")">>>>
FullArgs(as) == IF as = <<>> THEN <<>> ELSE Full(as[1]) \o (IF Len(as) = 1 THEN <<>> ELSE <<<<",", ",">>>>) \o FullArgs(Tail(as))
Full(e) == CASE e[1] = "const" -> (IF e[2][1] = "s" THEN <<<<"str", e[2][2]>>>> ELSE IF e[2] = Nil THEN <<<<"nil", "nil">>>>
                                   ELSE IF e[2][2] < 0 THEN <<<<"sign", "-">>, <<"num", ToString(-e[2][2])>>>> ELSE <<<<"num", ToString(e[2][2])>>>>)
             [] e[1] = "id" -> <<<<"id", e[2]>>>>
             [] e[1] = "bin" -> Wrap(Wrap(Full(e[3])) \o <<OpTok[e[2]]>> \o Wrap(Full(e[4])))
             [] e[1] = "un" -> Wrap(<<UnTok[e[2]]>> \o Wrap(Full(e[3])))
             [] e[1] = "call" -> Full(e[2]) \o Wrap(FullArgs(e[3]))
             [] e[1] = "idx" -> Full(e[2]) \o <<<<"[", "[">>>> \o Full(e[3]) \o <<<<"]", "]">>>>
\* only for alphabets of expressions
RoundTrip == Conf.expr => LET w == Whole(h) IN w.ok => Look(Toks(Full(w.tree[1][2]))).tree = w.tree
=============================================================================
