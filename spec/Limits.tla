------------------------------- MODULE Limits -------------------------------
(* A receiver with a limit and a sender that may announce one size and send  *)
(* another; packets may be lost, repeated and come late.  Sizes in units,    *)
(* BS units to a block.  The receiver decides by the rules of LimitRules.    *)
EXTENDS LimitRules, FiniteSets, TLC

CONSTANTS Limit, BS, MaxSize

VARIABLES size, ann, st, got, acked, net, ok

vars == <<size, ann, st, got, acked, net, ok>>
NBlk == size \div BS + 1
LenOf(k) == IF k < NBlk THEN BS ELSE size - (k - 1) * BS
Min(a, b) == IF a < b THEN a ELSE b
\* bytes in the first k blocks
Upto(k) == Min(k * BS, size)

Init == /\ size \in 0..MaxSize /\ ann \in {-9} \cup 0..MaxSize
        /\ st = "asked" /\ got = 0 /\ acked = 0 /\ net = {} /\ ok = FALSE

Start == /\ st = "asked"
         /\ st' = IF MayStart(ann, Limit) THEN "run" ELSE "refused"
         /\ UNCHANGED <<size, ann, got, acked, net, ok>>

Sends == /\ st = "run" /\ \E k \in 1..NBlk : net' = net \cup {k} /\ UNCHANGED <<size, ann, st, got, acked, ok>>

Blocks == CHOOSE k \in 0..NBlk : Upto(k) = got /\ \A j \in 0..NBlk : Upto(j) = got => k <= j

\* the next block comes in: stored, and then the total is looked at
Takes == /\ st = "run"
         /\ \E k \in net :
              /\ k = Blocks + 1
              /\ got' = got + LenOf(k)
              /\ IF MayAccept(got', Limit)
                 THEN /\ acked' = k
                      /\ st' = IF k = NBlk THEN "done" ELSE "run"
                      /\ ok' = (k = NBlk)
                 ELSE /\ st' = "stopped" /\ UNCHANGED <<acked, ok>>
         /\ UNCHANGED <<size, ann, net>>

Next == Start \/ Sends \/ Takes
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Start) /\ WF_vars(Sends) /\ WF_vars(Takes)

Bounded == MayStore(got, 0, Limit, BS) /\ (got > Limit => st = "stopped")
NothingBefore == (st \in {"asked", "refused"}) => got = 0
Accepted == MayAccept(Upto(acked), Limit) /\ (ok => size <= Limit)
Served == MustServe(ann, size, Limit) => st \notin {"refused", "stopped"}
=============================================================================
