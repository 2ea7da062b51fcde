------------------------------ MODULE TraceSec ------------------------------
(* Histories of the real server (role S) or the real client (role C)        *)
(* against SecRules: C09, C10, C20.                                         *)
EXTENDS SecRules, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES i, l,
          asked, q,  \* a request was read by / sent by the real end; its parameters
          got, a,    \* an option acknowledgement was sent / read; its parameters
          last,      \* form of the last data packet the real end was handed
          ran,       \* file bytes moved
          viol
vars == <<i, l, asked, q, got, a, last, ran, viol>>

T == Traces[i]
Nothing == [form |-> 4, enc |-> -9, pk |-> 0, ak |-> 0, sg |-> 0]

Init == /\ i \in 1..Len(Traces) /\ l = 0 /\ asked = FALSE /\ q = Nothing /\ got = FALSE /\ a = Nothing
        /\ last = 4 /\ ran = FALSE /\ viol = {}

Of(e) == [form |-> e.m, enc |-> e.q.enc, pk |-> e.q.pk, ak |-> e.q.ak, sg |-> e.q.sg]
V(prop, rule) == IF \E x \in viol : x[1] = prop /\ x[2] = rule THEN {} ELSE {<<prop, rule, l + 1>>}
When(c, v) == IF c THEN v ELSE {}

-----------------------------------------------------------------------------
(* the server *)
K == [skey |-> T.skey, auth |-> T.auth, full |-> T.full]
Against(rule) == UNION { V(p, rule) : p \in Refusals(K, q) }
Unproven == T.auth = 1 /\ ~Proven(q)
Level == Top(ServerNeeds(K), IF got THEN Grants(a.enc) ELSE 0)

SRequest(e) == asked' = TRUE /\ q' = Of(e) /\ UNCHANGED <<got, a, last, ran, viol>>
SOpens(e) == UNCHANGED <<asked, q, got, a, last, ran>> /\ viol' = viol \cup When(e.b = 1, Against("opens"))
SAnswers(e) == /\ got' = TRUE /\ a' = Of(e) /\ UNCHANGED <<asked, q, last, ran>>
               /\ viol' = viol \cup Against("answers")
                    \cup When(T.full = 1 /\ OfForm(e.m) < 2, V("C09", "option-acknowledgement-in-clear"))
                    \cup When(T.full = 1 /\ Grants(e.q.enc) < 3, V("C09", "weaker-level"))
                    \cup When(T.auth = 1 /\ Grants(e.q.enc) < 1, V("C09", "weaker-level"))
                    \cup When(T.etao = 1 /\ Unproven, V("C10", "answers-unproven"))
SSends(e) == /\ UNCHANGED <<asked, q, got, a, last>> /\ ran' = (ran \/ e.o = "data")
             /\ viol' = viol
                  \cup When(e.o \in {"data", "ack"}, Against("answers"))
                  \cup When(e.o = "data" /\ Level >= 1 /\ OfForm(e.m) = 0, V("C09", "sends-clear"))
                  \cup When(e.o \in {"data", "ack"} /\ Level >= 2 /\ OfForm(e.m) < 2, V("C09", "sends-clear"))
                  \cup When(T.etao = 1 /\ Unproven, V("C10", "answers-unproven"))
SHears(e) == UNCHANGED <<asked, q, got, a, ran, viol>> /\ last' = e.m
SStores(e) == /\ UNCHANGED <<asked, q, got, a, last>> /\ ran' = TRUE
              /\ viol' = viol \cup Against("stores")
                   \cup When(e.l > 0 /\ OfForm(last) < (IF Level > 2 THEN 2 ELSE Level), V("C09", "stores-clear"))
SDone(e) == /\ UNCHANGED <<asked, q, got, a, last, ran>>
            /\ viol' = viol \cup When(e.b = 0 /\ T.auth = 1 /\ Good(K, q) /\ T.fit = 1, V("C10", "refuses-proven"))

SStep(e) ==
    CASE e.e = "rx" /\ e.n = "L" /\ e.o \in {"rrq", "wrq"} -> SRequest(e)
      [] e.e = "open" /\ e.n = "S" -> SOpens(e)
      [] e.e = "tx" /\ e.n # "C" /\ e.o = "oack" -> SAnswers(e)
      [] e.e = "tx" /\ e.n # "C" -> SSends(e)
      [] e.e = "rx" /\ e.n # "C" /\ e.o = "data" -> SHears(e)
      [] e.e = "wr" /\ e.n = "S" -> SStores(e)
      [] e.e = "done" /\ e.n = "C" -> SDone(e)
      [] e.e = "panic" -> UNCHANGED <<asked, q, got, a, last, ran>> /\ viol' = viol \cup V("C18", "panic")
      [] OTHER -> UNCHANGED <<asked, q, got, a, last, ran, viol>>

-----------------------------------------------------------------------------
(* the client *)
C == [level |-> T.level, ckey |-> T.ckey, pin |-> T.pin]
Needs == ClientNeeds(C)
Unauthentic == MustProve(C, IF got THEN a ELSE Nothing) /\ ~(got /\ ProvesServer(a))
Weak == (IF got THEN Grants(a.enc) ELSE 0) < Needs
\* moving file bytes, or success
Trusts(e) == When(Unauthentic, V("C20", "trusts-unproven-server"))
       \cup When(Weak, V("C09", "weaker-level"))
       \cup When(Needs = 3 /\ got /\ OfForm(a.form) < 2, V("C09", "believes-clear-answer"))

CRequest(e) == /\ asked' = TRUE /\ q' = Of(e) /\ UNCHANGED <<got, a, last, ran>>
               /\ viol' = viol \cup When(Needs = 3 /\ e.m # 3, V("C09", "request-in-clear"))
CHears(e) == /\ UNCHANGED <<asked, q, ran, viol>> /\ last' = IF e.o = "data" THEN e.m ELSE last
             /\ IF e.o = "oack" /\ ~got THEN got' = TRUE /\ a' = Of(e) ELSE UNCHANGED <<got, a>>
CSends(e) == /\ UNCHANGED <<asked, q, got, a, last>> /\ ran' = TRUE
             /\ viol' = viol
                  \cup When(e.o = "data", Trusts(e))
                  \cup When(e.o = "data" /\ Needs >= 1 /\ OfForm(e.m) = 0, V("C09", "sends-clear"))
                  \cup When(e.o \in {"data", "ack"} /\ Needs >= 2 /\ OfForm(e.m) < 2, V("C09", "sends-clear"))
CStores(e) == /\ UNCHANGED <<asked, q, got, a, last>> /\ ran' = TRUE
              /\ viol' = viol
                   \cup When(e.l > 0, Trusts(e))
                   \cup When(e.l > 0 /\ OfForm(last) < (IF Needs > 2 THEN 2 ELSE Needs), V("C09", "stores-clear"))
CDone(e) == /\ UNCHANGED <<asked, q, got, a, last, ran>>
            /\ viol' = viol \cup When(e.b = 1, Trusts(e))

CStep(e) ==
    CASE e.e = "tx" /\ e.n = "C" /\ e.o \in {"rrq", "wrq"} -> CRequest(e)
      [] e.e = "rx" /\ e.n = "C" -> CHears(e)
      [] e.e = "tx" /\ e.n = "C" -> CSends(e)
      [] e.e = "wr" /\ e.n = "C" -> CStores(e)
      [] e.e = "done" /\ e.n = "C" -> CDone(e)
      [] e.e = "panic" -> UNCHANGED <<asked, q, got, a, last, ran>> /\ viol' = viol \cup V("C18", "panic")
      [] OTHER -> UNCHANGED <<asked, q, got, a, last, ran, viol>>

Outcome == IF \E j \in 1..Len(T.ev) : T.ev[j].e = "done" /\ T.ev[j].n = "C" /\ T.ev[j].b = 1 THEN " completes" ELSE " fails"
About == IF T.role = "S"
         THEN (IF ~asked THEN "unreadable request" ELSE IF Good(K, q) THEN "good request" ELSE
               IF Refusals(K, q) # {} THEN "forbidden request" ELSE "questionable request")
         ELSE (IF Unauthentic THEN "unproven answer" ELSE IF Weak THEN "weaker answer" ELSE "good answer")

Next ==
    \/ /\ l < Len(T.ev)
       /\ LET e == T.ev[l + 1] IN IF T.role = "S" THEN SStep(e) ELSE CStep(e)
       /\ l' = l + 1 /\ i' = i
    \/ /\ l = Len(T.ev)
       /\ l' = l + 1
       /\ LET v == viol \cup When(T.ended = 0, {<<"C16", "never-ends", l>>})
          IN viol' = v /\ PrintT(<<"END", i, Cardinality(v)>>)
                       /\ \A x \in v : PrintT(<<"VIOL", x[1], T.id, x[2], x[3]>>)
                       /\ PrintT(<<"COV", (IF T.role = "S" THEN "server: " ELSE "client: ") \o About \o Outcome>>)
       /\ UNCHANGED <<i, asked, q, got, a, last, ran>>

Spec == Init /\ [][Next]_vars
Sane == got => asked
=============================================================================
