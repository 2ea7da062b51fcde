----------------------------- MODULE TraceWire -----------------------------
(* What the code made of each datagram, checked against WireRules.           *)
EXTENDS WireRules, TLCExt, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES i, l
T == Traces[i]
Small == T.stack = 1
When(c, v) == IF c THEN {v} ELSE {}

Viol ==
    LET b == T.b  r == T.r  c == Class(b)
    IN When(r.k = "panic", <<"C18", "panic">>)
       \cup When(c = "bad" /\ r.k \notin {"bad", "panic"}, <<"C18", "accepted-malformed">>)
       \cup When(c = "good" /\ ~MayReadGood(r, b, Small), <<"C23", "misread">>)
       \cup When(c = "loose" /\ r.k # "panic" /\ ~MayReadLoose(r, b), <<"C23", "misread-loose">>)
       \cup When(r.k \notin {"bad", "panic"} /\ c # "bad" /\ ~SameAgain(r, T.again), <<"C23", "rewritten">>)
       \cup When(T.fit = 0, <<"C23", "buffer">>)
       \cup When(T.tight = 0, <<"C23", "short-buffer">>)
       \* the parser of the harness itself
       \cup When(c = "good" /\ ~MayReadGood(T.ora, b, FALSE), <<"ORACLE", "misread">>)
       \cup When(c = "bad" /\ T.ora.k # "bad", <<"ORACLE", "accepted-malformed">>)

Init == i \in DOMAIN Traces /\ l = 0
Next == /\ l = 0 /\ l' = 1 /\ i' = i
        /\ LET v == Viol IN PrintT(<<"END", i, Cardinality(v)>>) /\ \A x \in v : PrintT(<<"VIOL", x[1], T.id, x[2], 1>>)
        /\ PrintT(<<"COV", Class(T.b) \o " " \o Meaning(T.b).k>>)
Spec == Init /\ [][Next]_<<i, l>>
Sane == l \in {0, 1}
=============================================================================
