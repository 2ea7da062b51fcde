------------------------------- MODULE MCWire -------------------------------
(* Reading what was written gives what was meant, for every packet of small  *)
(* parts; and every sequence of bytes over a small alphabet has one class    *)
(* and one meaning, unchanged by writing it again.                           *)
EXTENDS Wire
CONSTANTS Alphabet, MaxLen

VARIABLE b
Fields == [file : {<<97>>, <<97, 47, 98>>, <<195, 188>>},
           opts : {<<>>, <<<<Name[1], <<53>>>>>>, <<<<Name[1], <<53>>>>, <<Name[3], <<48>>>>>>, <<<<Name[3], <<48>>>>, <<Name[1], <<53>>>>>>,
                   <<<<<<120>>, <<49>>>>, <<Name[4], <<52>>>>>>},
           blk : {0, 1, 255, 256, 65535}, payload : {<<>>, <<0>>, <<0, 0, 5>>, <<255>>}, code : 0 .. 8, msg : {<<>>, <<110, 111>>}]
Written(k) == {Encode(k, f) : f \in Fields}
RoundTrip == \A k \in {"rrq", "wrq", "data", "ack", "err", "oack"}, f \in Fields :
                LET e == Encode(k, f)  m == Meaning(e) IN
                /\ Class(e) = (IF k = "oack" /\ f.opts = <<>> THEN "loose" ELSE "good")
                /\ m.k = k
                /\ k \in {"rrq", "wrq"} => m.file = f.file
                /\ k \in {"rrq", "wrq", "oack"} => m.opts = Options(f.opts)
                /\ k \in {"data", "ack"} => m.blk = f.blk
                /\ k = "data" => m.payload = f.payload
                /\ k = "err" => m.code = f.code /\ m.msg = f.msg
ASSUME RoundTrip

Init == b = <<>>
Next == Len(b) < MaxLen /\ \E c \in Alphabet : b' = Append(b, c)
Spec == Init /\ [][Next]_b

\* what is understood can be written, and means the same again
Again(m) == Encode(m.k, [m EXCEPT !.opts = SetToSeq({<<Name[o[1]], o[2]>> : o \in m.opts})])
Stable == LET m == Meaning(b) IN
          /\ Class(b) \in {"good", "loose", "bad"}
          /\ (m.k = "bad") = (Class(b) = "bad")
          /\ Class(b) = "good" => Meaning(Again(m)) = m
=============================================================================
