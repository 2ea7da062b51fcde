--------------------------- MODULE TransferRules ---------------------------
(* The rules of one transfer, shared by the model (Transfer.tla), which     *)
(* composes them with a hostile network, and by the trace specification     *)
(* (TraceTransfer.tla), which applies them to histories of the real code.   *)
(*                                                                          *)
(* Blocks have unbounded indexes 1..N; on the wire only the index modulo    *)
(* Mod (65536) appears.  The last block is the only short one.              *)
EXTENDS Integers

(* Sender state: acked - highest block it was told is received,             *)
(*               high  - highest block it has sent.                         *)
MaySend(s, k, win, n) ==
    /\ k \in 1..n
    /\ k > s.acked            \* never a block it was told was received
    /\ k <= s.high + 1        \* new blocks in order
    /\ k - s.acked <= win     \* within the window

AfterSend(s, k) == [s EXCEPT !.high = IF k > @ THEN k ELSE @]

(* The blocks an acknowledgement number can stand for.                      *)
AckCandidates(s, num, mod) == { k \in s.acked..s.high : k % mod = num }

AfterAck(s, num, mod) ==
    LET c == AckCandidates(s, num, mod)
    IN IF c = {} THEN s ELSE [s EXCEPT !.acked = CHOOSE k \in c : \A j \in c : k <= j]

SenderDone(s, n) == s.acked = n

(* Receiver state: has - blocks stored contiguously, lastAck - last block   *)
(* it acknowledged.                                                         *)
MayAck(r, num, mod) == num = r.has % mod

(* After a data block k came in and the receiver holds r.has blocks (hadnt  *)
(* counts those it held before): must it acknowledge now?                   *)
MustAck(r, hadnt, k, win, n) ==
    IF k = hadnt + 1
    THEN r.has = k /\ (r.has - r.lastAck >= win \/ k = n)
    ELSE TRUE
=============================================================================
