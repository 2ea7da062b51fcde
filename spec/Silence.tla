------------------------------ MODULE Silence ------------------------------
(* A client, a server and a network that may die in either direction at any  *)
(* time, and may then deliver packets that are no progress instead.  Ages as *)
(* in ServerTable.  The client waits for an answer (asking), runs, or is     *)
(* over; the server has no transfer (none), runs it, or is done.             *)
EXTENDS TableRules, TLC

CONSTANTS RTc, RTs, Poll, N

VARIABLES c, s, dead, told, left

vars == <<c, s, dead, told, left>>
Far == RTc + RTs + Poll + 2

End(st, p) == [st |-> st, last |-> 0, over |-> FALSE, overAt |-> 0, ended |-> FALSE, p |-> p]
Init == /\ c = [End("asking", 1) EXCEPT !.last = 0]
        /\ s = [End("none", 2) EXCEPT !.ended = TRUE]
        /\ dead = {} /\ told = FALSE /\ left = N

CRuns == c.st # "gone"
SRuns == s.st = "run"
Open(d) == d \notin dead

Die(d) == dead' = dead \cup {d} /\ UNCHANGED <<c, s, told, left>>

\* the request arrives; a server that gave up may be asked again by a client that still asks
Request == /\ c.st = "asking" /\ s.st # "run" /\ s.ended /\ Open("c")
           /\ s' = End("run", 2) /\ UNCHANGED <<c, dead, told, left>>
Answer == /\ c.st = "asking" /\ SRuns /\ Open("s")
          /\ c' = End("run", 1) /\ UNCHANGED <<s, dead, told, left>>
\* one round: something new arrives at one of them and the answer at the other
Round == /\ c.st = "run" /\ SRuns /\ dead = {} /\ left > 0
         /\ c' = [c EXCEPT !.last = 0] /\ s' = [s EXCEPT !.last = 0] /\ left' = left - 1
         /\ UNCHANGED <<dead, told>>
Half == /\ c.st = "run" /\ SRuns /\ left > 0
        /\ \/ Open("c") /\ s.last < 0 /\ s' = [s EXCEPT !.last = 0] /\ c' = c
           \/ Open("s") /\ c.last < 0 /\ c' = [c EXCEPT !.last = 0] /\ s' = s
        /\ left' = left - 1 /\ UNCHANGED <<dead, told>>
Useless == UNCHANGED vars
Finish == /\ c.st = "run" /\ SRuns /\ left = 0 /\ dead = {}
          /\ c' = [c EXCEPT !.st = "gone", !.ended = TRUE, !.over = TRUE]
          /\ s' = [s EXCEPT !.st = "done", !.ended = TRUE, !.over = TRUE]
          /\ UNCHANGED <<dead, told, left>>

CGivesUp == /\ CRuns /\ MayEnd(c, 0, RTc)
            /\ c' = [c EXCEPT !.st = "gone", !.ended = TRUE] /\ UNCHANGED <<s, dead, told, left>>
SGivesUp == /\ SRuns /\ MayEnd(s, 0, RTs)
            /\ s' = [s EXCEPT !.st = "done", !.ended = TRUE] /\ told' = TRUE /\ UNCHANGED <<c, dead, left>>
\* the client hears of it
Told == /\ told /\ CRuns /\ Open("s") /\ c' = [c EXCEPT !.st = "gone", !.ended = TRUE, !.over = TRUE]
        /\ UNCHANGED <<s, dead, told, left>>

Back(x) == IF x <= -Far THEN -Far ELSE x - 1
Age(e) == [e EXCEPT !.last = Back(@)]
Tick == /\ ~Stale(c, 1, RTc, Poll) /\ ~Stale(s, 1, RTs, Poll)
        /\ c' = Age(c) /\ s' = Age(s) /\ UNCHANGED <<dead, told, left>>

Next == (\E d \in {"c", "s"} : Die(d)) \/ Request \/ Answer \/ Round \/ Half \/ Useless \/ Finish \/ CGivesUp \/ SGivesUp \/ Told \/ Tick
Spec == Init /\ [][Next]_vars /\ WF_vars(Tick) /\ WF_vars(CGivesUp) /\ WF_vars(SGivesUp)

NoStale == ~Stale(c, 0, RTc, Poll) /\ ~Stale(s, 0, RTs, Poll)
\* nobody gives up on a peer that made progress in time
Patient == [][(~c.ended /\ c'.ended) => c'.over \/ -c.last >= RTc]_vars
\* a network that is dead both ways ends the client and, in the end, the server
BothEnd == [](dead = {"c", "s"} => <>(c.ended /\ s.ended))
=============================================================================
