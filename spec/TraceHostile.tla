---------------------------- MODULE TraceHostile ----------------------------
(* Histories in which datagrams of the specification (T.sent) reach an idle  *)
(* server, a running transfer or a client.  T.served: another client that    *)
(* asked afterwards got its file.  Also: every datagram the code sends in    *)
(* the clear is well-formed, and requests say what the client was told.      *)
EXTENDS WireRules, TLCExt, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES i, l
T == Traces[i]
When(c, v) == IF c THEN {v} ELSE {}

Bad == \A j \in DOMAIN T.sent : Class(T.sent[j]) = "bad"
Tx == {j \in DOMAIN T.ev : T.ev[j].e = "tx"}
Own(j) == T.ev[j].n # 9
\* requests: of the client of the transfer (2) and of the one that asks later (3)
Request(j) == Op(T.ev[j].b) \in {1, 2}
AsTold(j) ==
    LET e == T.ev[j]  m == Meaning(e.b)
    IN IF e.n = 2 THEN m.k = (IF T.up = 1 THEN "wrq" ELSE "rrq") /\ m.file = T.file /\ m.opts \in {OptSet(T.opts), {}, OptSet(T.opts) \ {<<3, <<48>>>>}}
       ELSE e.n = 3 /\ m.k = "rrq" /\ m.file = <<112, 114, 111, 98, 101>> /\ m.opts \in {OptSet(T.popts), {}}

Viol ==
    When(\E j \in DOMAIN T.ev : T.ev[j].e = "panic", <<"C18", "panic">>)
    \cup When(T.alive = 0, <<"C18", "server-stopped">>)
    \cup When(T.ended = 0, <<"C18", "client-hangs">>)
    \cup When(T.served = 0, <<"C18", "not-served-afterwards">>)
    \cup When(T.at \in {"idle", "sealed"} /\ Bad /\ \E j \in DOMAIN T.ev : T.ev[j].e = "open" /\ T.ev[j].n = 1 /\ T.ev[j].pre = 1, <<"C18", "opened">>)
    \cup When(Bad /\ \E j \in Tx : T.ev[j].to = 9 /\ Meaning(T.ev[j].b).k # "err", <<"C18", "answered">>)
    \cup When(Bad /\ T.level = "none" /\ T.ok = 1 /\ T.right = 0, <<"C18", "wrong-content">>)
    \cup When(\E j \in Tx : Class(T.ev[j].b) # "good", <<"C23", "sent-malformed">>)
    \cup When(\E j \in Tx : T.ev[j].n # 1 /\ Request(j) /\ (T.ev[j].n = 3 \/ T.level = "none") /\ ~AsTold(j), <<"C23", "request">>)

Init == i \in DOMAIN Traces /\ l = 0
Next == /\ l = 0 /\ l' = 1 /\ i' = i
        /\ LET v == Viol IN PrintT(<<"END", i, Cardinality(v)>>) /\ \A x \in v : PrintT(<<"VIOL", x[1], T.id, x[2], 1>>)
        /\ PrintT(<<"COV", T.at \o (IF Bad THEN " malformed" ELSE " any") \o (IF T.at \in {"idle", "sealed"} THEN "" ELSE IF T.ok = 1 THEN ", completed" ELSE ", ended with an error")>>)
Spec == Init /\ [][Next]_<<i, l>>
Sane == l \in {0, 1}
=============================================================================
