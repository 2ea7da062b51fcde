----------------------------- MODULE NegoRules -----------------------------
(* The exchange of options (RFC 2347, 2348, 2349, 7440).                    *)
(*                                                                          *)
(* Options are a record [bs, win, to, ts]: block size, window size,         *)
(* timeout, transfer size.  Absent: the option is not in the packet; Bad:   *)
(* it is there, and its value is no number.                                 *)
EXTENDS Integers

Absent == -9
Bad    == -1
NoOptions == [bs |-> Absent, win |-> Absent, to |-> Absent, ts |-> Absent]

Lower(a, b) == IF a < b THEN a ELSE b
Has(v) == v # Absent

(* What a server may acknowledge for one option of a request.  K are its    *)
(* limits: mb block size, mw window, rt request timeout in seconds.         *)
MayGrantBs(req, ack, K)  == ack = Absent \/ (req >= 8 /\ ack \in 8..Lower(req, K.mb))
MayGrantWin(req, ack, K) == ack = Absent \/ (req >= 1 /\ ack \in 1..Lower(req, K.mw))
MayGrantTo(req, ack, K)  == ack = Absent \/ (ack = req /\ req \in 1..255 /\ req <= K.rt)
\* a read request asks for the size of the file, a write request announces it
MayGrantTs(req, ack, write, size) ==
    ack = Absent \/ (Has(req) /\ ack = (IF write THEN req ELSE size))

MayGrant(req, ack, K, write, size) ==
    /\ MayGrantBs(req.bs, ack.bs, K)
    /\ MayGrantWin(req.win, ack.win, K)
    /\ MayGrantTo(req.to, ack.to, K)
    /\ MayGrantTs(req.ts, ack.ts, write, size)

(* What a client accepts: "yes", "no", or "either" where the RFCs and the   *)
(* property leave it open (block sizes below 512; an unreadable transfer    *)
(* size of a download, which is information only).                          *)
Worst(S) == IF "no" \in S THEN "no" ELSE IF "either" \in S THEN "either" ELSE "yes"

TakesBs(req, ack) ==
    IF ack = Absent THEN "yes"
    ELSE IF req = Absent \/ ack < 8 \/ ack > req THEN "no"
    ELSE IF ack < 512 THEN "either" ELSE "yes"
TakesWin(req, ack) ==
    IF ack = Absent THEN "yes" ELSE IF req = Absent \/ ack < 1 \/ ack > req THEN "no" ELSE "yes"
\* a smaller timeout is in range and not larger than asked for
TakesTo(req, ack) ==
    IF ack = Absent THEN "yes" ELSE IF req = Absent \/ ack < 1 \/ ack > req \/ ack > 255 THEN "no"
    ELSE IF ack < req THEN "either" ELSE "yes"
TakesTs(req, ack, write) ==
    IF ack = Absent THEN "yes"
    ELSE IF req = Absent THEN "no"
    ELSE IF write THEN (IF ack = req THEN "yes" ELSE "no")
    ELSE IF ack = Bad THEN "either" ELSE "yes"

Takes(req, ack, write) == Worst({TakesBs(req.bs, ack.bs), TakesWin(req.win, ack.win),
                                 TakesTo(req.to, ack.to), TakesTs(req.ts, ack.ts, write)})

(* What both sides run with: acknowledged values, protocol defaults for the *)
(* rest.  Without an acknowledgement everything is default.                 *)
Runs(ack) == [bs  |-> IF Has(ack.bs)  THEN ack.bs  ELSE 512,
              win |-> IF Has(ack.win) THEN ack.win ELSE 1,
              to  |-> ack.to]
=============================================================================
