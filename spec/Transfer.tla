------------------------------ MODULE Transfer ------------------------------
(* A sender and a receiver of one file over a network that loses,           *)
(* duplicates and reorders.  Roles are symmetric: an upload has the client  *)
(* as sender, a download the server.  Checked exhaustively by TLC for small *)
(* N, Win and Mod; the properties are C01-C06 and C17.                      *)
EXTENDS TransferRules, FiniteSets, Sequences, TLC

CONSTANTS N,         \* blocks of the file (the last one short)
          Win,       \* negotiated window
          Mod,       \* size of the block number space
          Disp,      \* a packet is displaced by fewer than Disp blocks
          Storage    \* "ok" or "fails": the receiver's storage may fail

VARIABLES s, r,      \* sender and receiver
          file,      \* what the receiver stored: sequence of block indexes
          net,       \* datagrams in flight (a set: duplication = not removing)
          sOut, rOut \* "run", "ok" (success), "err"

vars == <<s, r, file, net, sOut, rOut>>

Data(k) == [kind |-> "data", idx |-> k, num |-> k % Mod]
Ack(k)  == [kind |-> "ack",  idx |-> k, num |-> k % Mod]

Init == /\ s = [acked |-> 0, high |-> 0]
        /\ r = [has |-> 0, lastAck |-> 0]
        /\ file = <<>>
        /\ net = {}
        /\ sOut = "run" /\ rOut = "run"

\* packets displaced too far are gone (TTL); Disp models the 10,000 block limit
Fresh(net_, s_, r_) == { m \in net_ : /\ m.kind = "data" => m.idx + Disp > r_.has
                                      /\ m.kind = "ack"  => m.idx + Disp > s_.high }

Send(k) == /\ sOut = "run"
           /\ MaySend(s, k, Win, N)
           /\ s' = AfterSend(s, k)
           /\ net' = Fresh(net \cup {Data(k)}, s', r)
           /\ UNCHANGED <<r, file, sOut, rOut>>

Lose(m) == /\ m \in net
           /\ net' = net \ {m}
           /\ UNCHANGED <<s, r, file, sOut, rOut>>

\* the receiver only sees the number: it takes the block that follows what it has
DeliverData(m, keep, early) ==
    /\ m \in net /\ m.kind = "data" /\ rOut = "run"
    /\ LET isNext == m.num = (r.has + 1) % Mod
           stored == [r EXCEPT !.has = IF isNext THEN @ + 1 ELSE @]
           k      == IF isNext THEN r.has + 1 ELSE r.has  \* as a rule argument: not the next one
           must   == MustAck(stored, r.has, k, Win, N)
           acks   == must \/ early
           last   == isNext /\ m.idx = N
       IN /\ file' = IF isNext THEN Append(file, m.idx) ELSE file
          /\ r' = [stored EXCEPT !.lastAck = IF acks THEN stored.has ELSE @]
          /\ net' = Fresh((IF keep THEN net ELSE net \ {m})
                          \cup (IF acks THEN {Ack(stored.has)} ELSE {}), s, r')
          /\ rOut' = IF last THEN "ok" ELSE rOut
          /\ UNCHANGED <<s, sOut>>

StorageFails(m) ==
    /\ Storage = "fails"
    /\ m \in net /\ m.kind = "data" /\ rOut = "run"
    /\ m.num = (r.has + 1) % Mod
    /\ rOut' = "err"
    /\ net' = net \ {m}
    /\ UNCHANGED <<s, r, file, sOut>>

DeliverAck(m, keep) ==
    /\ m \in net /\ m.kind = "ack" /\ sOut = "run"
    /\ s' = AfterAck(s, m.num, Mod)
    /\ sOut' = IF SenderDone(s', N) THEN "ok" ELSE sOut
    /\ net' = Fresh(IF keep THEN net ELSE net \ {m}, s', r)
    /\ UNCHANGED <<r, file, rOut>>

Timeout == /\ sOut = "run" /\ rOut = "err"
           /\ sOut' = "err"
           /\ UNCHANGED <<s, r, file, net, rOut>>

Next == \/ \E k \in 1..N : Send(k)
        \/ \E m \in net : Lose(m)
        \/ \E m \in net, keep, early \in BOOLEAN : DeliverData(m, keep, early)
        \/ \E m \in net, keep \in BOOLEAN : DeliverAck(m, keep)
        \/ \E m \in net : StorageFails(m)
        \/ Timeout
        \/ (sOut # "run" \/ rOut # "run") /\ UNCHANGED vars

\* a fair network delivers what is sent again and again; the sender repeats its first open block
Fairness == /\ WF_vars(\E k \in 1..N : k = s.acked + 1 /\ Send(k))
            /\ \A k \in 1..N : /\ SF_vars(DeliverData(Data(k), FALSE, FALSE))
                               /\ SF_vars(DeliverAck(Ack(k), FALSE))
                               /\ SF_vars(s.high < k /\ Send(k))

Spec == Init /\ [][Next]_vars /\ Fairness

TypeOK == /\ s.acked \in 0..N /\ s.high \in 0..N /\ s.acked <= s.high
          /\ r.has \in 0..N /\ r.lastAck \in 0..r.has

\* C01, C02: what is stored is a prefix of the file, each block once, in order
Prefix == /\ Len(file) = r.has
          /\ \A i \in 1..Len(file) : file[i] = i

\* C03: success means the other side has everything
Success == /\ sOut = "ok" => Len(file) = N /\ rOut = "ok"
           /\ rOut = "ok" => Len(file) = N

\* C04, C05 as state predicates: the sender never runs ahead of the window, and never
\* believes in a block the receiver does not have
Window == s.high - s.acked <= Win
Belief == s.acked <= r.has
AckTruth == \A m \in net : m.kind = "ack" => m.idx <= r.has

\* C17: unless the very last acknowledgement is lost, both ends finish; the receiver always does
Completes == Storage = "ok" => <>(rOut = "ok")
=============================================================================
