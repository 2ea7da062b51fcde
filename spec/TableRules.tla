----------------------------- MODULE TableRules -----------------------------
(* Who may, and who must, be served by a server with a limited number of     *)
(* places.  A place is a record [p, last, over, overAt, ended]: its peer,    *)
(* the time of the last progress, whether the transfer is over (complete,    *)
(* failed, or ended by its peer), since when, and whether the server let it  *)
(* go.  rt: the request timeout; poll: how long the server may take to       *)
(* notice that a transfer is over or dead.                                   *)
EXTENDS Integers, FiniteSets

\* the transfer is running: nobody may disturb it
Live(c, t, rt) == ~c.ended /\ ~c.over /\ t - c.last <= rt

Deadline(c, rt, poll) == (IF c.over THEN c.overAt ELSE c.last + rt) + poll

\* the place may still count as taken
Holds(c, t, rt, poll) == ~c.ended /\ t <= Deadline(c, rt, poll)

\* a dead or finished transfer that still has its place
Stale(c, t, rt, poll) == ~c.ended /\ t > Deadline(c, rt, poll)

MayServe(cs, p, t, rt, max) ==
    /\ Cardinality({k \in DOMAIN cs : Live(cs[k], t, rt)}) < max
    /\ \A k \in DOMAIN cs : cs[k].p = p => ~Live(cs[k], t, rt)

MustServe(cs, p, t, rt, poll, max) ==
    /\ Cardinality({k \in DOMAIN cs : Holds(cs[k], t, rt, poll)}) < max
    /\ \A k \in DOMAIN cs : cs[k].p = p => ~Holds(cs[k], t, rt, poll)

\* dead transfers are told so before they lose their place
MayEnd(c, t, rt) == c.over \/ t - c.last >= rt
=============================================================================
