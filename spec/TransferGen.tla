---------------------------- MODULE TransferGen ----------------------------
(* Stimuli from the model: for every transition of the state graph of       *)
(* Transfer, the (shortest) behaviour that ends in it, as a list of network *)
(* actions.  The harness makes the real code follow each of them.           *)
(*   s k   the sender (re)sends block k       d k / D k  data k arrives, its *)
(*   l k   data k is lost                     copy is gone / stays around    *)
(*   m k   acknowledgement k is lost          a k / A k  likewise for acks   *)
(*   f k   storing block k fails                                             *)
EXTENDS Transfer, CSV, IOUtils

VARIABLE hist

Emit(label) == /\ hist' = hist \o " " \o label
               /\ CSVWrite("%1$s %2$s %3$s%4$s", <<N, Win, Storage, hist'>>, IOEnv.STIM)

L(c, k) == c \o ToString(k)

GNext ==
    /\ rOut = "run" \/ sOut = "run"
    /\ \/ \E k \in 1..N : Data(k) \notin net /\ Send(k) /\ Emit(L("s", k))
       \/ \E m \in net : Lose(m) /\ Emit(L(IF m.kind = "data" THEN "l" ELSE "m", m.idx))
       \/ \E m \in net, keep \in BOOLEAN :
             DeliverData(m, keep, FALSE) /\ Emit(L(IF keep THEN "D" ELSE "d", m.idx))
       \/ \E m \in net, keep \in BOOLEAN :
             DeliverAck(m, keep) /\ Emit(L(IF keep THEN "A" ELSE "a", m.idx))
       \/ \E m \in net : StorageFails(m) /\ Emit(L("f", m.idx))

GInit == Init /\ hist = ""
GSpec == GInit /\ [][GNext]_<<vars, hist>>
View == vars
=============================================================================
