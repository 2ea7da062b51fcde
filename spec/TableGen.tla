------------------------------ MODULE TableGen ------------------------------
(* Stimuli for the table of transfers: all sequences of up to Len actions of *)
(* three peers and of strangers that make sense for a server with Max        *)
(* places.                                                                   *)
(*  R p request  P p progress  D p useless packets  F p finish  E p error    *)
(*  S p strangers interfere with the transfer of p                           *)
(*  W half of the request timeout passes   L a long time passes              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, CSV, IOUtils

CONSTANTS N, Maxes, Peers

VARIABLES h, n, cs, seen, done, max
vars == <<h, n, cs, seen, done, max>>

\* cs: peer -> 0 no transfer, 1 fresh, 2 half its time is over
Init == h = "" /\ n = 0 /\ cs = [p \in Peers |-> 0] /\ seen = 0 /\ done = FALSE /\ max \in Maxes

Live == {p \in Peers : cs[p] > 0}
Act(a, c) == h' = h \o " " \o a /\ n' = n + 1 /\ cs' = c /\ UNCHANGED <<done, max>>

Do(p, a) == Act(a \o ToString(p), CASE a = "R" -> IF cs[p] = 0 /\ Cardinality(Live) < max THEN [cs EXCEPT ![p] = 1] ELSE cs
                                    [] a = "P" -> [cs EXCEPT ![p] = 1]
                                    [] a \in {"F", "E"} -> [cs EXCEPT ![p] = 0]
                                    [] OTHER -> cs)
            /\ seen' = IF p > seen THEN p ELSE seen

Next ==
    \/ /\ n < N
       /\ \/ \E p \in Peers : p <= seen + 1 /\ Do(p, "R")
          \/ \E p \in Live, a \in {"P", "D", "F", "E", "S"} : Do(p, a)
          \/ Live # {} /\ Act("W", [p \in Peers |-> IF cs[p] = 1 THEN 2 ELSE 0]) /\ UNCHANGED seen
          \/ Live # {} /\ Act("L", [p \in Peers |-> 0]) /\ UNCHANGED seen
    \/ /\ n = N /\ ~done /\ done' = TRUE /\ UNCHANGED <<h, n, cs, seen, max>>
       /\ CSVWrite("%1$s%2$s", <<max, h>>, IOEnv.STIM)
Spec == Init /\ [][Next]_vars
=============================================================================
