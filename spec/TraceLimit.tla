----------------------------- MODULE TraceLimit -----------------------------
(* Histories of transfers around a size limit, checked against LimitRules    *)
(* (those the model Limits.tla is checked with).  T.limit: the limit of the  *)
(* receiver; blocks are few, no number ever wraps.                           *)
EXTENDS LimitRules, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES i, l, s, viol
vars == <<i, l, s, viol>>

T == Traces[i]
Up == T.up = 1
Recver == IF Up THEN "S" ELSE "C"
Min2(a, b) == IF a < b THEN a ELSE b

Init == /\ i \in DOMAIN Traces
        /\ l = 0
        /\ s = [ann |-> -9, got |-> 0, told |-> FALSE, ok |-> FALSE, done |-> FALSE]
        /\ viol = {}

V(prop, rule) == IF \E x \in viol : x[1] = prop /\ x[2] = rule THEN {} ELSE {<<prop, rule, l + 1>>}
When(c, v) == IF c THEN v ELSE {}

AtRecver(e) == IF Up THEN e.n # "C" ELSE e.n = "C"
Announced(q) == IF q.ts < 0 THEN -9 ELSE q.ts

Step(e) ==
    CASE e.e = "rx" /\ AtRecver(e) /\ e.o = (IF Up THEN "wrq" ELSE "oack") ->
            s' = [s EXCEPT !.ann = Announced(e.q)] /\ UNCHANGED viol
      [] e.e = "open" /\ Up /\ e.n = "S" ->
            s' = s /\ viol' = viol \cup When(~MayStart(s.ann, T.limit), V("C14", "opened"))
      [] e.e = "wr" /\ e.n = Recver ->
            /\ s' = [s EXCEPT !.got = @ + e.l]
            /\ viol' = viol \cup When(~MayStart(s.ann, T.limit), V("C14", "stored-announced"))
                            \cup When(~MayStore(s.got, e.l, T.limit, T.bs), V("C14", "stored"))
      [] e.e = "tx" /\ AtRecver(e) /\ e.o = "err" -> s' = [s EXCEPT !.told = TRUE] /\ UNCHANGED viol
      [] e.e = "tx" /\ AtRecver(e) /\ e.o = "oack" -> s' = s /\ viol' = viol \cup When(~MayStart(s.ann, T.limit), V("C14", "accepted"))
      [] e.e = "tx" /\ AtRecver(e) /\ e.o = "ack" ->
            s' = s /\ viol' = viol \cup When(~MayStart(s.ann, T.limit), V("C14", "accepted"))
                                   \cup When(~MayAccept(Min2(e.b * T.bs, T.size), T.limit), V("C14", "acknowledged"))
      [] e.e = "done" /\ e.n = "C" -> s' = [s EXCEPT !.done = TRUE, !.ok = e.b = 1]
            /\ viol' = viol \cup When(e.b = 1 /\ ~MayAccept(T.size, T.limit), V("C14", "success"))
                            \cup When(e.b = 1 /\ ~MayStart(s.ann, T.limit), V("C14", "success"))
      [] e.e = "panic" -> s' = s /\ viol' = viol \cup V("C18", "panic")
      [] OTHER -> UNCHANGED <<s, viol>>

Next ==
    \/ /\ l < Len(T.ev)
       /\ Step(T.ev[l + 1]) /\ l' = l + 1 /\ i' = i
    \/ /\ l = Len(T.ev)
       /\ l' = l + 1
       /\ LET v == viol \cup When(MustServe(s.ann, T.size, T.limit) /\ ~(s.got = T.size /\ (IF Up THEN ~s.told ELSE s.ok)), V("C14", "refused"))
                        \cup When((T.size > T.limit \/ s.ann > T.limit) /\ ~s.told, V("C14", "not-told"))
          IN viol' = v /\ PrintT(<<"END", i, Cardinality(v)>>)
                       /\ \A x \in v : PrintT(<<"VIOL", x[1], T.id, x[2], x[3]>>)
       /\ PrintT(<<"COV", IF s.ann > T.limit THEN "announced too large" ELSE IF T.size > T.limit THEN "outgrew the limit"
                          ELSE IF T.size = T.limit THEN "exactly the limit" ELSE "below the limit">>)
       /\ UNCHANGED <<i, s>>

Spec == Init /\ [][Next]_vars
Sane == s.got >= 0
=============================================================================
