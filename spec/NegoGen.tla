------------------------------ MODULE NegoGen ------------------------------
(* Stimuli for the exchange of options, one per line.                       *)
(*  S op bs win to ts unk mb mw rt   a request for the real server, and its *)
(*                                   limits; ts: a = the size, b = one more *)
(*  C op qbs qwin qto kind bs win to ts   what the real client asks for and *)
(*                                   what the scripted server answers       *)
(* Values: -9 absent, -1 no number.                                         *)
EXTENDS NegoRules, Sequences, FiniteSets, TLC, CSV, IOUtils

VARIABLES c, done

SBs  == {-1, 0, 7, 8, 511, 512, 513, 700, 701, 1424, 1425, 1428, 65464, 65535, 65536, 66048}
SWin == {-1, 0, 1, 2, 4, 5, 16, 17, 1000, 65535, 65536, 65537}
STo  == {-1, 0, 1, 2, 5, 6, 255, 256, 257}
STs  == {"-1", "0", "a", "b", "200000", "200001", "4294967295", "18446744073709551615", "18446744073709551616"}
Ks   == {<<1424, 16, 15>>, <<700, 4, 5>>, <<512, 1, 2>>}

\* at most two options set, or four plain ones
SReq == { <<b, w, o, s>> \in (SBs \cup {-9}) \X (SWin \cup {-9}) \X (STo \cup {-9}) \X (STs \cup {"-9"}) :
            \/ Cardinality({k \in 1..3 : <<b, w, o>>[k] # -9} \cup (IF s # "-9" THEN {4} ELSE {})) <= 2
            \/ b \in {512, 1424, 1428} /\ w \in {1, 4, 16} /\ o \in {1, 2} /\ s = "a" }

SCases == { <<"S", op, q[1], q[2], q[3], q[4], u, k[1], k[2], k[3]>> :
              op \in {"r", "w"}, q \in SReq, u \in {0}, k \in Ks }
     \cup { <<"S", op, 1424, 4, 1, "a", 1, k[1], k[2], k[3]>> : op \in {"r", "w"}, k \in Ks }

\* what the client asks for: 512, 1 and 0 (80 ms) are not sent
Asks == { <<b, w, o>> : b \in {512, 1024, 1425}, w \in {1, 4}, o \in {0, 3} }
Q(a) == [bs |-> IF a[1] = 512 THEN Absent ELSE a[1], win |-> IF a[2] = 1 THEN Absent ELSE a[2],
         to |-> IF a[3] = 0 THEN Absent ELSE a[3]]

\* the answer for one option: as asked for, left out, or something else
DBs(r)  == {r, -9, 512, 600, 8, 511, 0, -1, 65535, 66048} \cup (IF r > 0 THEN {r + 1, r - 1} ELSE {})
DWin(r) == {r, -9, 1, 0, -1, 65535, 65537} \cup (IF r > 0 THEN {r + 1, r - 1} ELSE {})
DTo(r)  == {r, -9, 1, 0, -1, 255, 256, 257} \cup (IF r > 0 THEN {r + 1, r - 1} ELSE {})
DTs     == {"a", "-9", "b", "-1", "0"}
Deviates(r, d) == Cardinality({k \in 1..3 : <<d[1] # r.bs, d[2] # r.win, d[3] # r.to>>[k]}
                              \cup (IF d[4] # "a" THEN {4} ELSE {}))

COack == UNION { { <<"C", op, a[1], a[2], a[3], kind, d[1], d[2], d[3], d[4]>> :
                     op \in {"r", "w"}, kind \in {"oack"},
                     d \in { d \in DBs(Q(a).bs) \X DWin(Q(a).win) \X DTo(Q(a).to) \X DTs : Deviates(Q(a), d) <= 2 } }
                 : a \in Asks }
COther == { <<"C", op, a[1], a[2], a[3], kind, -9, -9, -9, "-9">> :
              op \in {"r", "w"}, a \in Asks, kind \in {"plain", "errplain", "unknown"} }
     \cup { <<"C", op, a[1], a[2], a[3], "erroack", d[1], d[2], -9, d[3]>> :
              op \in {"r", "w"}, a \in Asks, d \in {<<1024, -9, "-9">>, <<512, -9, "-9">>, <<-9, 4, "-9">>, <<-9, -9, "a">>} }

Init == c \in SCases \cup COack \cup COther /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ c' = c
        /\ CSVWrite("%1$s %2$s %3$s %4$s %5$s %6$s %7$s %8$s %9$s %10$s", c, IOEnv.STIM)
Spec == Init /\ [][Next]_<<c, done>>
=============================================================================
