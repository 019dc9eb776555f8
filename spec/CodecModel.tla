----------------------------- MODULE CodecModel -----------------------------
(* Round trips of the specified format over a finite set of values. *)
EXTENDS Codec
VARIABLE done
Ints == { <<0,0,0,0>>, <<0,0,0,1>>, <<255,255,255,255>>, <<127,255,255,255>>, <<128,0,0,0>>, <<0,1,0,0>>, <<0,0,255,255>>, <<1,2,3,4>> }
Exps == {0, 1, 2, 126, 127, 128, 253, 254}
Mans == {0, 1, 2, 255, 256, 8388607, 4194304, 5592405}
Floats == { FBits(s, e, m) : s \in {TRUE, FALSE}, e \in Exps, m \in Mans } \ {FBits(TRUE, 0, 0)}
Strs == { <<>>, <<97>>, <<97, 98>>, <<255, 1>> }
Scal == {<<"n">>} \cup {<<"i", b>> : b \in Ints} \cup {<<"f", b>> : b \in Floats} \cup {<<"s", s>> : s \in Strs}
K == { <<"i", <<0,0,0,1>>>>, <<"f", <<63,192,0,0>>>>, <<"s", <<97>>>> }
V1 == { <<"i", <<0,0,0,7>>>>, <<"s", <<>> >>, <<"f", <<63,192,0,0>>>> }
T1 == { <<"t", { <<k, f[k]>> : k \in D }>> : D \in SUBSET K, f \in [K -> V1] }
T2 == { <<"t", { <<k, t>>}>> : k \in K, t \in T1 }
Vals == Scal \cup T1 \cup T2
RoundTrip == \A v \in Vals : Decode(Encode(v), 1) = <<v, Len(Encode(v)) + 1>>
\* every proper prefix of a value is refused
Prefixes == \A v \in T1 \cup Scal : \A n \in 0..(Len(Encode(v)) - 1) : Decode(SubSeq(Encode(v), 1, n), 1) = <<>>
Msgs == { [t |-> "B", topic |-> <<"s", <<116>>>>, val |-> v] : v \in T1 }
        \cup { [t |-> t, id |-> i, key |-> k, val |-> v, ts |-> s, rob |-> r] : t \in {"P", "Q"}, i \in {0, 255, 256, 65535},
               k \in K, v \in Scal, s \in {0, 65535}, r \in {1, 300} }
        \cup { [t |-> "L", ids |-> l] : l \in {<<>>, <<1>>, <<65535, 0, 256>>} }
        \cup { [t |-> t, id |-> i] : t \in {"J", "V"}, i \in {0, 255, 256, 65535} }
Strip(m) == [f \in DOMAIN m \ {"end"} |-> m[f]]
MsgRoundTrip == \A m \in Msgs : LET b == EncodeMsg(m) IN Strip(DecodeMsg(b)) = m /\ DecodeMsg(b).end = Len(b)
MsgPrefixes == \A m \in Msgs : LET b == EncodeMsg(m) IN \A n \in 0..(Len(b) - 1) : DecodeMsg(SubSeq(b, 1, n)) = Bad
Init == done = 0
Next == done = 0 /\ done' = 1
Spec == Init /\ [][Next]_done
=============================================================================
