----------------------------- MODULE TraceTable -----------------------------
(* Histories of the real server with several peers, checked against the      *)
(* rules of TableRules (those the model ServerTable.tla is checked with).    *)
(* Events: rx / tx at connection c (0: the listening socket) from / to peer  *)
(* p (0: a stranger), k the kind of packet, b its number (oack: the window), *)
(* l its length (oack: the block size), x: the content is right; new / end   *)
(* of a connection (new: b the size of the file, k up or down); wr: storing. *)
EXTENDS TableRules, Sequences, TLC, TLCExt, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
\* how long the server may take to notice, ms
Poll == 2700

VARIABLES i, l, cs, pend, viol
vars == <<i, l, cs, pend, viol>>

T == Traces[i]

Init == /\ i \in DOMAIN Traces
        /\ l = 0
        /\ cs = <<>>
        /\ pend = [on |-> FALSE, p |-> 0, t |-> 0]
        /\ viol = {}

V(prop, rule) == IF \E x \in viol : x[1] = prop /\ x[2] = rule THEN {} ELSE {<<prop, rule, l + 1>>}
When(c, v) == IF c THEN v ELSE {}

NBlk(c) == c.size \div c.bs + 1

\* a request that had to be served was not
Missed(e) == When(pend.on /\ (e.t > pend.t + 5 \/ (e.e = "rx" /\ e.c = 0)), V("C16", "not-served"))

\* a connection that should be gone
Overdue(e) == When(\E k \in DOMAIN cs : Stale(cs[k], e.t, T.rt, Poll), V("C16", "kept-dead"))

New(e) ==
    /\ cs' = Append(cs, [p |-> e.p, c |-> e.c, last |-> e.t, over |-> FALSE, overAt |-> 0, ended |-> FALSE,
                         up |-> e.k = "up", size |-> e.b, bs |-> 512, win |-> 1, high |-> 0, acked |-> 0, got |-> 0, told |-> FALSE])
    /\ pend' = IF e.p = pend.p THEN [pend EXCEPT !.on = FALSE] ELSE pend
    /\ viol' = viol
         \cup When(e.p = 0, V("C15", "stranger-served"))
         \cup When(e.x = 0, V("C15", "other-file"))
         \cup When(~MayServe(cs, e.p, e.t, T.rt, T.max),
                   V("C15", IF \E k \in DOMAIN cs : cs[k].p = e.p /\ Live(cs[k], e.t, T.rt) THEN "served-twice" ELSE "limit"))

At(c) == CHOOSE k \in DOMAIN cs : cs[k].c = c
Has(c) == \E k \in DOMAIN cs : cs[k].c = c
Set(k, c) == [cs EXCEPT ![k] = c]

\* blocks are few: no number ever wraps
RxConn(e) ==
    LET k == At(e.c)
        c == cs[k]
        mine == e.p = c.p
    IN /\ cs' = IF ~mine \/ c.over THEN cs
                ELSE IF e.k = "err" THEN Set(k, [c EXCEPT !.over = TRUE, !.overAt = e.t])
                ELSE IF e.k = "ack" /\ ~c.up /\ e.b > c.acked /\ e.b <= c.high
                     THEN IF e.b = NBlk(c) THEN Set(k, [c EXCEPT !.acked = e.b, !.last = e.t, !.over = TRUE, !.overAt = e.t])
                                           ELSE Set(k, [c EXCEPT !.acked = e.b, !.last = e.t])
                ELSE cs
       /\ UNCHANGED pend
       /\ viol' = viol

RxMain(e) ==
    /\ UNCHANGED cs
    /\ viol' = viol
    /\ pend' = IF e.k \in {"rrq", "wrq"} /\ e.f = 1 /\ e.p # 0 /\ MustServe(cs, e.p, e.t, T.rt, Poll, T.max)
               THEN [on |-> TRUE, p |-> e.p, t |-> e.t] ELSE [pend EXCEPT !.on = FALSE]

TxConn(e) ==
    LET k == At(e.c)
        c == cs[k]
    IN /\ UNCHANGED pend
       /\ cs' = CASE e.k = "oack" -> Set(k, [c EXCEPT !.win = e.b, !.bs = e.l])
                  [] e.k = "data" -> Set(k, [c EXCEPT !.high = IF e.b > @ THEN e.b ELSE @])
                  [] e.k = "ack"  -> IF c.up /\ e.b = NBlk(c) /\ c.got = c.size /\ ~c.over
                                     THEN Set(k, [c EXCEPT !.over = TRUE, !.overAt = e.t]) ELSE cs
                  [] e.k = "err"  -> Set(k, [c EXCEPT !.told = TRUE])
                  [] OTHER -> cs
       /\ viol' = viol
            \cup When(e.p # c.p, V("C15", "redirected"))
            \cup When(e.k = "data" /\ e.x = 0, V("C15", "content"))
            \cup When(e.k = "data" /\ (c.up \/ e.b > c.acked + c.win), V("C15", "moved-on"))
            \cup When(e.k = "ack" /\ (~c.up \/ e.b * c.bs > c.got + c.bs), V("C15", "acknowledged"))
            \cup When(e.k = "err" /\ ~MayEnd(c, e.t, T.rt), V("C15", "cut"))

TxMain(e) ==
    /\ UNCHANGED <<cs, pend>>
    /\ viol' = viol \cup When(e.k # "err", V("C15", "answered-elsewhere"))

Wr(e) ==
    LET k == At(e.c)
        c == cs[k]
    IN /\ UNCHANGED pend
       /\ cs' = Set(k, [c EXCEPT !.got = @ + e.l, !.last = e.t])
       /\ viol' = viol
            \cup When(e.x = 0 \/ e.b # c.got, V("C15", "content"))
            \cup When(c.ended, V("C15", "stored-after-end"))

End(e) ==
    LET k == At(e.c)
        c == cs[k]
    IN /\ UNCHANGED pend
       /\ cs' = Set(k, [c EXCEPT !.ended = TRUE])
       /\ viol' = viol
            \cup When(~MayEnd(c, e.t, T.rt), V("C15", "cut"))
            \cup When(MayEnd(c, e.t, T.rt) /\ ~c.over /\ ~c.told, V("C16", "not-told"))

Step(e) ==
    CASE e.e = "new" -> New(e)
      [] e.e = "rx" /\ e.c = 0 -> RxMain(e)
      [] e.e = "tx" /\ e.c = 0 -> TxMain(e)
      [] e.e = "rx" /\ Has(e.c) -> RxConn(e)
      [] e.e = "tx" /\ Has(e.c) -> TxConn(e)
      [] e.e = "wr" /\ Has(e.c) -> Wr(e)
      [] e.e = "wr" -> UNCHANGED <<cs, pend>> /\ viol' = viol \cup V("C15", "content")
      [] e.e = "end" /\ Has(e.c) -> End(e)
      [] e.e = "down" -> UNCHANGED <<cs, pend>> /\ viol' = viol \cup V("C18", "down")
      [] OTHER -> UNCHANGED <<cs, pend, viol>>

Next ==
    \/ /\ l < Len(T.ev)
       /\ LET e == T.ev[l + 1]
              m == Missed(e) \cup Overdue(e)
          IN IF m # {}
             THEN /\ viol' = viol \cup m
                  /\ pend' = [pend EXCEPT !.on = FALSE]
                  \* each place is reported once
                  /\ cs' = [k \in DOMAIN cs |-> IF Stale(cs[k], e.t, T.rt, Poll) THEN [cs[k] EXCEPT !.last = e.t, !.overAt = e.t] ELSE cs[k]]
                  /\ UNCHANGED <<i, l>>
             ELSE Step(e) /\ l' = l + 1 /\ i' = i
    \/ /\ l = Len(T.ev)
       /\ l' = l + 1
       /\ PrintT(<<"END", i, Cardinality(viol)>>)
       /\ \A x \in viol : PrintT(<<"VIOL", x[1], T.id, x[2], x[3]>>)
       /\ \A what \in { w \in {<<"a transfer was given up", \E k \in DOMAIN cs : cs[k].ended /\ ~cs[k].over>>,
                               <<"a transfer was completed", \E k \in DOMAIN cs : cs[k].over>>,
                               <<"all places were taken", \E k \in 1..Len(T.ev) : T.ev[k].e = "rx" /\ T.ev[k].c = 0
                                        /\ T.ev[k].k \in {"rrq", "wrq"} /\ \A m \in 1..Len(T.ev) : T.ev[m].e = "new" => T.ev[m].t # T.ev[k].t>>} : w[2] } :
             PrintT(<<"COV", what[1]>>)
       /\ UNCHANGED <<i, cs, pend, viol>>

Spec == Init /\ [][Next]_vars
Sane == \A k \in DOMAIN cs : cs[k].acked <= cs[k].high
=============================================================================
