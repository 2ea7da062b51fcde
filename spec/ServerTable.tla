---------------------------- MODULE ServerTable ----------------------------
(* A server with Max places and its peers: requests, progress, silence,      *)
(* useless packets, ends and errors in any order.  Time is counted back      *)
(* from the present (ages), so that the state space is finite.               *)
EXTENDS TableRules, Sequences, TLC

CONSTANTS Peers, Max, RT, Poll

VARIABLES cs,      \* peer -> its place
          asking,  \* peers whose request the server has not seen yet
          told     \* peers that got an error since they lost their place by age

vars == <<cs, asking, told>>
Far == RT + Poll + 2
None == [p |-> 0, last |-> -Far, over |-> TRUE, overAt |-> -Far, ended |-> TRUE]

Init == /\ cs = [p \in Peers |-> None]
        /\ asking = {}
        /\ told = {}

Ask(p) == /\ p \notin asking
          /\ asking' = asking \cup {p} /\ UNCHANGED <<cs, told>>

\* the server takes a request: it serves or ignores it
Serve(p) == /\ p \in asking /\ MayServe(cs, p, 0, RT, Max)
            /\ cs[p].ended \* a table has one place for each peer
            /\ Cardinality({q \in Peers : ~cs[q].ended}) < Max
            /\ cs' = [cs EXCEPT ![p] = [p |-> p, last |-> 0, over |-> FALSE, overAt |-> 0, ended |-> FALSE]]
            /\ asking' = asking \ {p} /\ told' = told \ {p}

Ignore(p) == /\ p \in asking /\ ~MustServe(cs, p, 0, RT, Poll, Max)
             /\ asking' = asking \ {p} /\ UNCHANGED <<cs, told>>

Running(p) == ~cs[p].ended /\ ~cs[p].over

Progress(p) == /\ Running(p)
               /\ cs' = [cs EXCEPT ![p].last = 0] /\ UNCHANGED <<asking, told>>

\* a useless packet, or one of a stranger: nothing changes
Dull(p) == Running(p) /\ UNCHANGED vars

Over(p) == /\ Running(p)
           /\ cs' = [cs EXCEPT ![p].over = TRUE, ![p].overAt = 0] /\ UNCHANGED <<asking, told>>

\* the server lets a transfer go, and says so when it was not over
Sweep(p) == /\ ~cs[p].ended /\ MayEnd(cs[p], 0, RT)
            /\ cs' = [cs EXCEPT ![p].ended = TRUE]
            /\ told' = IF cs[p].over THEN told ELSE told \cup {p}
            /\ UNCHANGED asking

Back(x) == IF x <= -Far THEN -Far ELSE x - 1

\* time passes, but no place outlives its deadline
Tick == /\ \A p \in Peers : ~Stale(cs[p], 1, RT, Poll)
        /\ cs' = [p \in Peers |-> [cs[p] EXCEPT !.last = Back(@), !.overAt = Back(@)]]
        /\ UNCHANGED <<asking, told>>

ServerActs == \E p \in Peers : Serve(p) \/ Ignore(p) \/ Sweep(p)
PeersAct == \E p \in Peers : Ask(p) \/ Progress(p) \/ Dull(p) \/ Over(p)
Next == ServerActs \/ PeersAct \/ Tick

Spec == Init /\ [][Next]_vars
\* silent peers that may ask again and again, a server that works, and time
LiveSpec == Init /\ [][ServerActs \/ Tick \/ \E p \in Peers : Ask(p) \/ Dull(p)]_vars
            /\ WF_vars(Tick) /\ \A p \in Peers : WF_vars(Sweep(p)) /\ WF_vars(Serve(p)) /\ WF_vars(Ignore(p))

Taken == {p \in Peers : ~cs[p].ended}

TypeOK == asking \subseteq Peers /\ \A p \in Peers : cs[p].last \in -Far..0
Limited == Cardinality({p \in Peers : Live(cs[p], 0, RT)}) <= Max
NoStale == \A p \in Peers : ~Stale(cs[p], 0, RT, Poll)
Told == \A p \in Peers : (cs[p].ended /\ cs[p].p = p /\ ~cs[p].over) => p \in told
Consistent == \A p \in Peers : MustServe(cs, p, 0, RT, Poll, Max) => MayServe(cs, p, 0, RT, Max)
\* nothing but its own peer and its age ends a transfer
Isolated == [][\A p \in Peers : (Live(cs[p], 0, RT) /\ ~Live(cs'[p], 0, RT)) => (cs'[p].over \/ -cs'[p].last >= RT)]_vars
\* with silent peers no place stays taken, so whoever asks again and again is served
Released == \A p \in Peers : [](~cs[p].ended => <>cs[p].ended)
=============================================================================
