-------------------------------- MODULE Nego --------------------------------
(* A client asks for options, a server answers; the server may be honest or *)
(* not, may ignore options or not know them at all, and the network may     *)
(* lose the answer, after which the client asks again.  Checked by TLC.     *)
EXTENDS NegoRules, FiniteSets, TLC

CONSTANTS BsV, WinV, ToV, TsV,   \* values that appear in packets
          Limits,                \* limits of servers
          FileSize

Opts == [bs : BsV, win : WinV, to : ToV, ts : TsV]

VARIABLES write,   \* the kind of request
          req,     \* what the client asks for
          K,       \* the server's limits
          honest,  \* the server keeps to the rules
          net,     \* answers on their way
          srv,     \* "idle" or what the server runs with
          cli,     \* "asks", "fails", or what the client runs with
          strict   \* the client is as strict as it may be

vars == <<write, req, K, honest, net, srv, cli, strict>>

Init == /\ write \in BOOLEAN /\ req \in Opts /\ K \in Limits /\ honest \in BOOLEAN
        /\ strict \in BOOLEAN
        /\ net = {} /\ srv = [s |-> "idle"] /\ cli = [s |-> "asks"]

Run(o) == [s |-> "runs", o |-> o]

\* a valid request, as a client sends it
Valid(r) == /\ r.bs = Absent \/ r.bs >= 8
            /\ r.win = Absent \/ r.win >= 1
            /\ r.to = Absent \/ r.to \in 1..255
            /\ r.ts # Bad

Answer(ack) == /\ net' = net \cup {ack}
               /\ srv' = Run(Runs(ack))
               /\ UNCHANGED <<write, req, K, honest, cli, strict>>

\* one answer per request; a server that knows no options answers with data or ACK 0
Grant == /\ honest /\ srv.s = "idle"
         /\ \E ack \in Opts : MayGrant(req, ack, K, write, FileSize) /\ Answer(ack)
Ignore == /\ honest /\ srv.s = "idle" /\ Answer(NoOptions)
Cheat == /\ ~honest /\ srv.s = "idle" /\ \E ack \in Opts : Answer(ack)
Forget == /\ srv.s = "runs" /\ srv' = [s |-> "idle"] /\ net' = {}
          /\ UNCHANGED <<write, req, K, honest, cli, strict>> /\ cli.s = "asks"

Hear(ack) == /\ cli.s = "asks" /\ ack \in net
             /\ cli' = LET t == Takes(req, ack, write)
                       IN IF t = "no" \/ (t = "either" /\ strict) THEN [s |-> "fails"] ELSE Run(Runs(ack))
             /\ UNCHANGED <<write, req, K, honest, net, srv, strict>>

Next == Grant \/ Ignore \/ Cheat \/ Forget \/ (\E ack \in net : Hear(ack))
        \/ (cli.s # "asks" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

\* both ends run with the same values
Agreement == (honest /\ cli.s = "runs" /\ srv.s = "runs") => cli.o = srv.o
\* an honest server's answer to a valid request is accepted (small blocks aside)
NoFailure == (honest /\ Valid(req)) => (cli.s = "fails" => strict /\ \E a \in net : a.bs \in 8..511)
\* C07
WithinLimits == (honest /\ srv.s = "runs") =>
                   /\ srv.o.bs <= 512 \/ srv.o.bs <= K.mb
                   /\ srv.o.win = 1 \/ srv.o.win <= K.mw
\* C08: whatever the server says
WithinRequest == cli.s = "runs" => /\ cli.o.bs = 512 \/ (req.bs # Absent /\ cli.o.bs <= req.bs)
                                   /\ cli.o.win = 1 \/ (req.win # Absent /\ cli.o.win <= req.win)
                                   /\ cli.o.to = Absent \/ (req.to # Absent /\ cli.o.to <= req.to)
                                   /\ cli.o.bs >= 8 /\ cli.o.win >= 1
=============================================================================
