---------------------------- MODULE TraceSilence ----------------------------
(* Histories of the real client and server on a network that dies, checked   *)
(* against the rules of TableRules (those the model Silence.tla is checked   *)
(* with): who makes no progress any more ends in time, not earlier, and the  *)
(* server says so.                                                           *)
EXTENDS TableRules, Sequences, TLC, TLCExt, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
\* how long the server may take to notice, ms; the client looks once a second
PollS == 2700
PollC == 1500

VARIABLES i, l, cl, cs, viol
vars == <<i, l, cl, cs, viol>>

T == Traces[i]
Up == T.up = 1

Init == /\ i \in DOMAIN Traces
        /\ l = 0
        \* the client: st "off" / "asking" / "run"
        /\ cl = [st |-> "off", last |-> 0, over |-> FALSE, overAt |-> 0, ended |-> TRUE]
        /\ cs = <<>>
        /\ viol = {}

V(prop, rule) == IF \E x \in viol : x[1] = prop /\ x[2] = rule THEN {} ELSE {<<prop, rule, l + 1>>}
When(c, v) == IF c THEN v ELSE {}

At(c) == CHOOSE k \in DOMAIN cs : cs[k].c = c
Has(c) == \E k \in DOMAIN cs : cs[k].c = c
\* packets of an earlier session of the same client are noise, which the history does not tell apart
Sure == T.quiet = 1 \/ Len(cs) = 1
Set(k, c) == [cs EXCEPT ![k] = c]
\* the connection that stores
Cur == CHOOSE k \in DOMAIN cs : \A m \in DOMAIN cs : m <= k

Asks(e) == cl' = IF cl.st = "off" THEN [cl EXCEPT !.st = "asking", !.last = e.t, !.ended = FALSE] ELSE cl

CRx(e) ==
    cl' = IF cl.st = "asking" /\ e.k \in {"oack", "ack", "data", "err"} THEN [cl EXCEPT !.st = "run", !.last = e.t, !.over = e.k = "err", !.overAt = e.t]
          ELSE IF e.k = "err" /\ ~cl.over THEN [cl EXCEPT !.over = TRUE, !.overAt = e.t]
          ELSE IF Up /\ e.k = "ack" THEN [cl EXCEPT !.last = e.t]
          ELSE cl

Done(e) ==
    /\ cl' = [cl EXCEPT !.ended = TRUE]
    /\ viol' = viol \cup When(e.b = 0 /\ cl.st = "run" /\ T.quiet = 1 /\ ~MayEnd(cl, e.t, T.rtc - 5), V("C17", "gave-up-early"))
                    \cup When(e.b = 0 /\ cl.st = "asking" /\ T.quiet = 1 /\ ~MayEnd(cl, e.t, T.rtc - 5), V("C17", "stopped-asking"))

New(e) == cs' = Append(cs, [c |-> e.c, last |-> e.t, over |-> FALSE, overAt |-> 0, ended |-> FALSE, told |-> FALSE, high |-> 0, acked |-> 0, got |-> 0])

SRx(e) ==
    LET k == At(e.c)
        c == cs[k]
    IN cs' = IF c.over THEN cs
             ELSE IF e.k = "err" THEN Set(k, [c EXCEPT !.over = TRUE, !.overAt = e.t])
             ELSE IF e.k = "ack" /\ ~Up /\ e.b > c.acked /\ e.b <= c.high
                  THEN Set(k, [c EXCEPT !.acked = e.b, !.last = e.t, !.over = e.b = T.nblk, !.overAt = e.t])
             ELSE cs

STx(e) ==
    LET k == At(e.c)
        c == cs[k]
    IN /\ cs' = CASE e.k = "data" -> Set(k, [c EXCEPT !.high = IF e.b > @ THEN e.b ELSE @])
                  [] e.k = "ack" /\ Up /\ e.b = T.nblk /\ c.got = T.size -> Set(k, [c EXCEPT !.over = TRUE, !.overAt = IF c.over THEN @ ELSE e.t])
                  [] e.k = "err" -> Set(k, [c EXCEPT !.told = TRUE])
                  [] OTHER -> cs
       /\ viol' = viol \cup When(e.k = "err" /\ Sure /\ ~MayEnd(c, e.t, T.rts), V("C17", "gave-up-early"))

SEnd(e) ==
    LET k == At(e.c)
        c == cs[k]
    IN /\ cs' = Set(k, [c EXCEPT !.ended = TRUE])
       /\ viol' = viol \cup When(Sure /\ ~MayEnd(c, e.t, T.rts), V("C17", "gave-up-early"))
                       \cup When(MayEnd(c, e.t, T.rts) /\ ~c.over /\ ~c.told, V("C16", "not-told"))

Step(e) ==
    CASE e.e = "tx" /\ e.n = "C" /\ e.k \in {"rrq", "wrq"} /\ cl.st = "off" -> Asks(e) /\ UNCHANGED <<cs, viol>>
      \* under full encryption the request may be unreadable; the first packet is the request
      [] e.e = "tx" /\ e.n = "C" /\ cl.st = "off" -> Asks(e) /\ UNCHANGED <<cs, viol>>
      [] e.e = "rx" /\ e.n = "C" -> CRx(e) /\ UNCHANGED <<cs, viol>>
      [] e.e = "wr" /\ e.n = "C" -> cl' = [cl EXCEPT !.last = e.t] /\ UNCHANGED <<cs, viol>>
      [] e.e = "done" /\ e.n = "C" -> Done(e) /\ UNCHANGED cs
      [] e.e = "new" -> New(e) /\ UNCHANGED <<cl, viol>>
      [] e.e = "rx" /\ e.n = "S" /\ Has(e.c) -> SRx(e) /\ UNCHANGED <<cl, viol>>
      [] e.e = "tx" /\ e.n = "S" /\ Has(e.c) -> STx(e) /\ UNCHANGED cl
      [] e.e = "wr" /\ e.n = "S" /\ cs # <<>> -> cs' = Set(Cur, [cs[Cur] EXCEPT !.got = @ + e.b, !.last = e.t]) /\ UNCHANGED <<cl, viol>>
      [] e.e = "end" /\ Has(e.c) -> SEnd(e) /\ UNCHANGED cl
      [] e.e = "panic" -> viol' = viol \cup V("C18", "panic") /\ UNCHANGED <<cl, cs>>
      [] e.e = "done" /\ e.n = "S" -> viol' = viol \cup V("C18", "down") /\ UNCHANGED <<cl, cs>>
      [] OTHER -> UNCHANGED <<cl, cs, viol>>

Late(e) == When(Stale(cl, e.t, T.rtc, PollC), V("C16", IF cl.st = "asking" THEN "asks-on" ELSE "waits-on"))
           \cup When(\E k \in DOMAIN cs : Stale(cs[k], e.t, T.rts, PollS), V("C16", "kept-dead"))

Next ==
    \/ /\ l < Len(T.ev)
       /\ LET e == T.ev[l + 1]
              m == Late(e)
          IN IF m # {}
             THEN /\ viol' = viol \cup m
                  /\ cl' = [cl EXCEPT !.last = e.t, !.overAt = e.t]
                  /\ cs' = [k \in DOMAIN cs |-> [cs[k] EXCEPT !.last = e.t, !.overAt = e.t]]
                  /\ UNCHANGED <<i, l>>
             ELSE Step(e) /\ l' = l + 1 /\ i' = i
    \/ /\ l = Len(T.ev)
       /\ l' = l + 1
       /\ LET v == viol \cup When(~cl.ended, V("C16", "client-never-ends"))
                        \cup When(\E k \in DOMAIN cs : ~cs[k].ended, V("C16", "server-never-ends"))
          IN viol' = v /\ PrintT(<<"END", i, Cardinality(v)>>)
                       /\ \A x \in v : PrintT(<<"VIOL", x[1], T.id, x[2], x[3]>>)
       /\ PrintT(<<"COV", IF cl.st = "asking" THEN "client gave up asking"
                          ELSE IF cl.over THEN "client heard an error" ELSE "client gave up or completed">>)
       /\ UNCHANGED <<i, cl, cs>>

Spec == Init /\ [][Next]_vars
Sane == \A k \in DOMAIN cs : cs[k].acked <= cs[k].high
=============================================================================
