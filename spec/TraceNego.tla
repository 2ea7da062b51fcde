----------------------------- MODULE TraceNego -----------------------------
(* Histories of the real code against NegoRules.  T.role says which end is  *)
(* the real one: "S" the server (C07), "C" the client (C08).                *)
EXTENDS NegoRules, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES i, l,
          phase,  \* "asks", "runs" (an answer was given or accepted), "bad" (a bad answer was given), "open" (either)
          req, ack, \* options of the last request and of the answer
          s,      \* the real end as a sender: acked, high, when each block was sent last, something heard since
          viol
vars == <<i, l, phase, req, ack, s, viol>>

T == Traces[i]
Write == T.up = 1
Real == T.role
RealTag == IF Real = "S" THEN "C07" ELSE "C08"
Prop == RealTag
Session == Runs(ack)
Blocks == T.size \div Session.bs + 1
Length(k) == IF k < Blocks THEN Session.bs ELSE T.size % Session.bs
K == [mb |-> T.mb, mw |-> T.mw, rt |-> T.lrt]

Init == /\ i \in 1..Len(Traces) /\ l = 0 /\ phase = "asks"
        /\ req = NoOptions /\ ack = NoOptions
        /\ s = [acked |-> 0, high |-> 0, tx |-> <<>>, heard |-> FALSE]
        /\ viol = {}

Opt(q) == [bs |-> q.bs, win |-> q.win, to |-> q.to, ts |-> q.ts]

V(rule) == IF \E x \in viol : x[2] = rule THEN {} ELSE {<<Prop, rule, l + 1>>}
When(c, v) == IF c THEN v ELSE {}

\* the real server is asked / the real client asks
Request(e) == /\ req' = Opt(e.q) /\ phase' = "asks" /\ ack' = NoOptions
              /\ s' = s /\ viol' = viol

ServerAnswers(e) ==
    /\ ack' = Opt(e.q) /\ phase' = "runs" /\ s' = s /\ req' = req
    /\ viol' = viol
         \cup When(~MayGrantBs(req.bs, e.q.bs, K), V("block-size"))
         \cup When(~MayGrantWin(req.win, e.q.win, K), V("window-size"))
         \cup When(~MayGrantTo(req.to, e.q.to, K), V("timeout"))
         \cup When(~MayGrantTs(req.ts, e.q.ts, Write, T.size), V("transfer-size"))
         \cup When(e.q.n = 0, V("empty"))
         \cup When(e.q.unk > 0 \/ e.q.enc > 0 \/ e.q.pk + e.q.ak + e.q.sg > 0, V("not-requested"))

ClientHears(e) ==
    /\ req' = req /\ s' = s /\ viol' = viol
    /\ ack' = Opt(e.q)
    /\ phase' = CASE Takes(req, Opt(e.q), Write) = "no" -> "bad"
                  [] Takes(req, Opt(e.q), Write) = "either" \/ e.q.unk > 0 -> "open"
                  [] OTHER -> "runs"

\* an answer without options
PlainAnswer == /\ req' = req /\ s' = s /\ viol' = viol /\ ack' = NoOptions /\ phase' = "runs"

\* file bytes leave the real end
Sends(e) ==
    /\ UNCHANGED <<phase, req, ack>>
    /\ s' = [s EXCEPT !.high = IF e.b > @ THEN e.b ELSE @, !.tx = IF e.b <= Len(@) /\ e.b > 0 THEN [@ EXCEPT ![e.b] = e.t] ELSE Append(@, e.t), !.heard = FALSE]
    /\ viol' = viol
         \cup When(phase = "bad", V("runs-under-refused-options"))
         \cup When(phase # "bad" /\ e.l # Length(e.b), V("runs-with-other-block-size"))
         \cup When(phase # "bad" /\ e.b - s.acked > Session.win, V("runs-with-larger-window"))
         \cup When(phase # "bad" /\ e.b \in 1..Len(s.tx) /\ ~s.heard /\ Has(Session.to) /\ e.t - s.tx[e.b] < Session.to * 1000 - 1,
                   V("repeats-before-the-timeout"))

\* the real end is told; before its first acknowledgement it had all the time it needs to fill its window
Told(e) ==
    /\ UNCHANGED <<phase, req, ack>>
    /\ s' = [s EXCEPT !.acked = IF e.b > @ /\ e.b <= s.high THEN e.b ELSE @, !.heard = TRUE]
    /\ viol' = viol \cup When(T.quiet = 1 /\ s.acked = 0 /\ e.b > 0 /\ phase # "bad"
                               /\ s.high # Lower(Session.win, Blocks), V("runs-with-smaller-window"))

Acks(e) == /\ UNCHANGED <<phase, req, ack, s>>
           /\ viol' = viol \cup When(phase = "bad", V("runs-under-refused-options"))

Stores(e) == /\ UNCHANGED <<phase, req, ack, s>>
             /\ viol' = viol \cup When(phase = "bad" /\ e.l > 0, V("stores-under-refused-options"))

\* a request for (or of) more than the server takes may be refused
TooLarge == req.ts > T.mf

Done(e) ==
    /\ UNCHANGED <<phase, req, ack, s>>
    /\ viol' = viol
         \cup When(e.b = 1 /\ phase = "bad", V("success-under-refused-options"))
         \cup When(e.b = 0 /\ Real = "S" /\ ~TooLarge, V("request-fails"))
         \cup When(e.b = 0 /\ Real = "C" /\ phase = "runs", V("fails-under-good-options"))

Idle == UNCHANGED <<phase, req, ack, s, viol>>

ServerStep(e) ==
    CASE e.e = "rx" /\ e.n = "L" /\ e.o \in {"rrq", "wrq"} -> Request(e)
      [] e.e = "tx" /\ e.n = "S" /\ e.o = "oack" -> ServerAnswers(e)
      [] e.e = "tx" /\ e.n = "S" /\ e.o = "data" -> Sends(e)
      [] e.e = "rx" /\ e.n = "S" /\ e.o = "ack"  -> Told(e)
      [] e.e = "done" /\ e.n = "C" -> Done(e)
      [] OTHER -> Idle

ClientStep(e) ==
    CASE e.e = "tx" /\ e.n = "C" /\ e.o \in {"rrq", "wrq"} -> Request(e)
      [] e.e = "rx" /\ e.n = "C" /\ e.o = "oack" /\ phase = "asks" -> ClientHears(e)
      [] e.e = "rx" /\ e.n = "C" /\ phase = "asks" /\ (e.o = "data" \/ e.o = "ack") -> PlainAnswer
      [] e.e = "tx" /\ e.n = "C" /\ e.o = "data" -> Sends(e)
      [] e.e = "tx" /\ e.n = "C" /\ e.o = "ack"  -> Acks(e)
      [] e.e = "rx" /\ e.n = "C" /\ e.o = "ack"  -> Told(e)
      [] e.e = "wr" /\ e.n = "C" -> Stores(e)
      [] e.e = "done" /\ e.n = "C" -> Done(e)
      [] OTHER -> Idle

\* every packet is one
Garbles == UNCHANGED <<phase, req, ack, s>> /\ viol' = viol \cup V("sends-no-packet")
Panics == UNCHANGED <<phase, req, ack, s>> /\ viol' = viol \cup V("panic")

Next ==
    \/ /\ l < Len(T.ev)
       /\ LET e == T.ev[l + 1]
          IN IF e.e = "panic" THEN Panics
             ELSE IF e.e = "tx" /\ e.o = "bad" THEN Garbles ELSE IF Real = "S" THEN ServerStep(e) ELSE ClientStep(e)
       /\ l' = l + 1 /\ i' = i
    \/ /\ l = Len(T.ev)
       /\ l' = l + 1
       /\ LET v == viol \cup When(T.ended = 0, {<<Prop, "never-ends", l>>})
          IN viol' = v /\ PrintT(<<"END", i, Cardinality(v)>>)
                       /\ \A x \in v : PrintT(<<"VIOL", x[1], T.id, x[2], x[3]>>)
                       /\ PrintT(<<"COV", Real \o (IF Write THEN " upload " ELSE " download ") \o phase>>)
       /\ UNCHANGED <<i, phase, req, ack, s>>

Spec == Init /\ [][Next]_vars
Sane == s.acked <= s.high
=============================================================================
