------------------------------- MODULE SecGen -------------------------------
(* Stimuli for the security of requests and answers, one per line.          *)
(*  S op skey auth full etao form enc pk ak sg 0  - a request for the real  *)
(*    server; form: plain, initial, other (encrypted to another key)        *)
(*  C op level ckey pin kind dress enc pk ak sg run - what the real client  *)
(*    is told, and the answer of the scripted server; dress: the answer is  *)
(*    plain or whole (encrypted); run: the server then runs as it announced,*)
(*    or in the clear.                                                      *)
EXTENDS SecRules, Sequences, FiniteSets, TLC, CSV, IOUtils

VARIABLES c, done

Encs == {-9, -1, 0, 1, 2, 3, 4, 5}
\* sg: 1 right, 2 by another key, 3 over another session key, 4 malformed
Ids == { <<ak, sg>> : ak \in {0}, sg \in {0} } \cup ({1, 2, 3, 4} \X {0, 1, 2, 3, 4})

Count(b) == IF b THEN 1 ELSE 0
SCases == { <<"S", op, sk, au, fu, et, form, enc, id[1][1], id[2][1], id[2][2], "0">> :
              op \in {"r", "w"}, sk \in {0, 1}, au \in {0, 1}, fu \in {0, 1}, et \in {0, 1},
              form \in {"plain", "initial", "other"}, enc \in Encs, id \in ({0, 1, 2} \X {0}) \X Ids }
SKept == { x \in SCases : /\ x[7] # "plain" => x[3] = 1
                          /\ x[6] = 1 => (x[4] = 1 \/ x[5] = 1)
                          /\ x[9] # 1 => (x[10] \in {0, 2} /\ x[11] \in {0, 1})
                          /\ x[10] \in {1, 4} => x[11] \in {1, 4}
                          /\ x[7] = "other" => (x[8] \in {3, 5} /\ x[10] \in {0, 2} /\ x[11] \in {0, 1}) }

CCases == { <<"C", op, lv, ck, pin, "oack", d[1], enc, d[2], d[3][1], d[3][2], d[4]>> :
              op \in {"r", "w"}, lv \in 0..5, ck \in {0, 1}, pin \in {0, 1}, enc \in Encs,
              d \in {"plain", "whole"} \X {0, 1, 2} \X Ids \X {"as", "clear"} }
CKept == { x \in CCases : /\ x[7] = "whole" => (x[5] = 1 /\ x[3] \in {4, 5})
                          /\ x[9] # 1 => (x[10] \in {0, 1} /\ x[11] \in {0, 1})
                          /\ x[10] \in {2, 4} => x[11] \in {1, 4}
                          /\ x[12] = "clear" => (x[8] \in {3, 4, 5} /\ x[9] = 1 /\ x[10] \in {0, 1} /\ x[11] \in {0, 1}) }
CPlain == { <<"C", op, lv, ck, pin, kind, d, -9, 0, 0, 0, "clear">> :
              op \in {"r", "w"}, lv \in 0..5, ck \in {0, 1}, pin \in {0, 1}, kind \in {"plain", "err"},
              d \in {"plain", "whole"} }

Init == c \in SKept \cup CKept \cup CPlain /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ c' = c
        /\ CSVWrite("%1$s %2$s %3$s %4$s %5$s %6$s %7$s %8$s %9$s %10$s %11$s %12$s", c, IOEnv.STIM)
Spec == Init /\ [][Next]_<<c, done>>
=============================================================================
