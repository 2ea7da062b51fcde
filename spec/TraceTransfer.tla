---------------------------- MODULE TraceTransfer ----------------------------
(* Histories of the real code, one transfer each, checked against the rules  *)
(* of TransferRules (those the model Transfer.tla is checked with).          *)
(* A history is a record: up (upload), size, bs (payload bytes of a full     *)
(* block), win, nblk, fair (the network delivers what is repeated), rt       *)
(* (request timeout of the sender, ms), ev (the events).                     *)
(* The specification follows a history; every rule an event breaks adds an   *)
(* entry <<property, rule, event number>> to viol.  Rules are monitors: the  *)
(* state follows the history even after a violation.                         *)
EXTENDS TransferRules, Sequences, TLC, TLCExt, Json, FiniteSets, IOUtils

Mod == 65536
Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES i, l, s, r, viol
vars == <<i, l, s, r, viol>>

T == Traces[i]
Up == T.up = 1
Fair == T.fair = 1
Sender == IF Up THEN "C" ELSE "S"
Recver == IF Up THEN "S" ELSE "C"

Init == /\ i \in DOMAIN Traces
        /\ l = 0
        /\ s = [acked |-> 0, high |-> 0, lastTx |-> -1, over |-> FALSE, late |-> FALSE]
        /\ r = [has |-> 0, lastAck |-> 0, got |-> 0, pend |-> 0, kind |-> "none", blk |-> 0,
                fail |-> FALSE, over |-> FALSE, finalAck |-> FALSE]
        /\ viol = {}

\* each rule counts once, where it is broken first
V(prop, rule) == IF \E x \in viol : x[1] = prop /\ x[2] = rule THEN {} ELSE {<<prop, rule, l + 1>>}
When(c, v) == IF c THEN v ELSE {}

Min2(a, b) == IF a < b THEN a ELSE b

\* the number of blocks stored when got bytes are stored and block k was being stored
Stored(got, k) == got = Min2(k * T.bs, T.size)

\* an acknowledgement the receiver owes and has not sent
Owes == /\ ~r.fail /\ ~r.over
        /\ \/ r.kind = "other"
           \/ /\ r.kind = "next" /\ r.has = r.blk
              /\ (r.has - r.lastAck >= T.win \/ r.has = T.nblk)

SenderSends(e) ==
    /\ s' = IF e.x > 0 THEN [AfterSend(s, e.x) EXCEPT !.lastTx = e.t]
                       ELSE [s EXCEPT !.lastTx = e.t]
    /\ r' = r
    /\ viol' = viol
         \cup When(e.x <= 0, V("C04", "bytes"))
         \cup When(e.x > 0 /\ ~MaySend(s, e.x, T.win, T.nblk),
                   V("C04", IF e.x > s.high + 1 THEN "order"
                            ELSE IF e.x <= s.acked THEN "acknowledged"
                            ELSE "window"))
         \cup When(e.x > 0 /\ e.b # e.x % Mod, V("C06", "number"))

SenderHears(e) ==
    /\ s' = IF e.f = 1 /\ ~s.over THEN AfterAck(s, e.b, Mod) ELSE s
    /\ r' = IF e.f = 1 /\ s'.acked = T.nblk THEN [r EXCEPT !.finalAck = TRUE] ELSE r
    /\ UNCHANGED viol

RecverHears(e) ==
    /\ s' = s
    /\ viol' = viol \cup When(Owes, V("C05", "no-ack"))
    /\ r' = IF e.f = 1 /\ e.x > 0
            THEN LET next == e.x = r.has + 1
                 IN [r EXCEPT !.kind = IF next THEN "next" ELSE "other",
                              !.blk  = e.x,
                              !.pend = IF next /\ ~Stored(r.got, e.x) THEN e.x ELSE 0,
                              !.has  = IF next /\ Stored(r.got, e.x) THEN e.x ELSE @]
            ELSE [r EXCEPT !.kind = "none"]

\* something else than data: it is heard, and asks for nothing
RecverHearsOther(e) ==
    /\ s' = s
    /\ viol' = viol \cup When(Owes, V("C05", "no-ack"))
    /\ r' = [r EXCEPT !.kind = "none"]

RecverAcks(e) ==
    /\ s' = s
    /\ r' = [r EXCEPT !.lastAck = r.has, !.kind = "none"]
    /\ viol' = viol \cup When(~MayAck(r, e.b, Mod), V("C05", "number"))
                    \cup When(r.fail, V("C03", "ack-after-failure"))

Writes(e) ==
    /\ s' = s
    /\ LET got == r.got + e.l
           done == r.pend > 0 /\ Stored(got, r.pend)
       IN r' = [r EXCEPT !.got = got,
                         !.has = IF done THEN r.pend ELSE @,
                         !.pend = IF done THEN 0 ELSE @]
    /\ viol' = viol
         \cup When(e.l > 0 /\ (e.f # 1 \/ e.x # r.got), V(IF Up THEN "C01" ELSE "C02", "stored"))
         \cup When(e.n # Recver, V(IF Up THEN "C01" ELSE "C02", "stored-at-sender"))

WriteFails(e) == s' = s /\ r' = [r EXCEPT !.fail = TRUE] /\ viol' = viol

Complete == r.has = T.nblk /\ r.got = T.size /\ ~r.fail

\* the client is done
Done(e) ==
    /\ s' = IF Up THEN [s EXCEPT !.over = TRUE] ELSE s
    /\ r' = IF Up THEN r ELSE [r EXCEPT !.over = TRUE]
    /\ viol' = viol
         \cup When(e.b = 1 /\ Up /\ s.acked # T.nblk, V("C03", "success-unacknowledged"))
         \cup When(e.b = 1 /\ Up /\ ~Complete, V("C01", "incomplete"))
         \cup When(e.b = 1 /\ ~Up /\ ~Complete, V("C02", "incomplete"))
         \cup When(e.b = 1 /\ ~Up /\ ~Complete, V("C03", "success-incomplete"))
         \cup When(e.b = 1 /\ e.l # T.size, V("C03", "count"))
         \cup When(e.b = 1 /\ ~Up /\ Owes, V("C05", "no-ack"))
         \cup When(e.b = 0 /\ Fair /\ ~(Up /\ Complete /\ ~r.finalAck), V("C17", "failed"))

\* the server's transfer ended
Ends(e) ==
    /\ s' = IF Up THEN s ELSE [s EXCEPT !.over = TRUE]
    /\ r' = IF Up THEN [r EXCEPT !.over = TRUE] ELSE r
    /\ viol' = viol
         \cup When(Up /\ Owes, V("C05", "no-ack"))
         \cup When(Up /\ Fair /\ ~Complete, V("C17", "gave-up"))

Panics(e) == s' = s /\ r' = r /\ viol' = viol \cup V("C18", "panic")

\* the receiver says it failed: it owes nothing
RecverErrs(e) == s' = s /\ r' = [r EXCEPT !.fail = TRUE] /\ viol' = viol

Other(e) == UNCHANGED <<s, r, viol>>

Step(e) ==
    CASE e.e = "tx" /\ e.n = Sender /\ e.o = "data" -> SenderSends(e)
      [] e.e = "rx" /\ e.n = Sender /\ e.o = "ack"  -> SenderHears(e)
      [] e.e = "rx" /\ e.n = Recver /\ e.o = "data" -> RecverHears(e)
      [] e.e = "rx" /\ e.n = Recver                 -> RecverHearsOther(e)
      [] e.e = "tx" /\ e.n = Recver /\ e.o = "ack"  -> RecverAcks(e)
      [] e.e = "tx" /\ e.n = Recver /\ e.o = "err"  -> RecverErrs(e)
      [] e.e = "wr"                                 -> Writes(e)
      [] e.e = "wf"                                 -> WriteFails(e)
      [] e.e = "done" /\ e.n = "C"                  -> Done(e)
      [] e.e = "end" /\ e.n = "S"                   -> Ends(e)
      [] e.e = "panic"                              -> Panics(e)
      [] OTHER                                      -> Other(e)

\* retransmission: an open block is repeated well within the sender's request timeout
Quiet(e) == /\ Fair /\ ~s.over /\ ~r.over /\ ~s.late
            /\ s.high > 0 /\ s.acked < T.nblk
            /\ e.t - s.lastTx > T.rt \div 2

Next ==
    \/ /\ l < Len(T.ev)
       /\ LET e == T.ev[l + 1]
          IN IF Quiet(e)
             THEN /\ viol' = viol \cup V("C17", "silent")
                  /\ s' = [s EXCEPT !.late = TRUE]
                  /\ UNCHANGED <<i, l, r>>
             ELSE /\ Step(e)
                  /\ l' = l + 1 /\ i' = i
    \/ /\ l = Len(T.ev)
       /\ l' = l + 1
       /\ LET v == viol \cup When(T.ended = 0, {<<IF Fair THEN "C17" ELSE "C16", "never-ends", l>>})
                        \cup When(Fair /\ ~Up /\ ~r.over, {<<"C17", "never-ends", l>>})
          IN viol' = v /\ PrintT(<<"END", i, Cardinality(v)>>)
                       /\ \A x \in v : PrintT(<<"VIOL", x[1], T.id, x[2], x[3]>>)
                       /\ IF "acts" \in DOMAIN T
                          THEN PrintT(<<"COV", IF T.acts = T.followed THEN "model behaviour followed to its end"
                                              ELSE "model behaviour followed in part">>)
                          ELSE TRUE
       /\ UNCHANGED <<i, s, r>>

Spec == Init /\ [][Next]_vars

\* what the rules maintain, whatever the history
Sane == /\ s.acked <= s.high
        /\ r.lastAck <= r.has
=============================================================================
