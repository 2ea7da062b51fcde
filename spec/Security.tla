------------------------------ MODULE Security ------------------------------
(* The exchange of keys and levels with an attacker on the network who may  *)
(* drop, replace or replay every packet, and who knows every public key but *)
(* no private key except its own.  Terms are symbolic: a session key is     *)
(* named after who holds its private half ("c" and "s" for the honest ends, *)
(* "old" for a client session recorded earlier, "a" for the attacker), and  *)
(* a signature is a pair <<signer, session key signed>>.                    *)
EXTENDS SecRules, FiniteSets, TLC

CONSTANTS Attacker,    \* BOOLEAN: whether there is one
          Levels       \* levels of clients and in forged packets

VARIABLES c,    \* what the client was told: [level, ckey, pin]; ckey 2 = on the server's list, 3 = not, 0 = none
          k,    \* what the server was told: [skey, auth, full]
          cli,  \* [s, q, a]: "idle", "asks", "runs", "fails"; q what was sent; a what was believed
          srv,  \* [s, q, a]: "idle", "runs", "refuses"; q what was read; a what was answered
          net,  \* requests and answers that anybody has sent
          met   \* the attacker has interfered
vars == <<c, k, cli, srv, net, met>>

None == "none"
NoSig == <<0, "none">>
\* who: 1 the server, 2 the listed client, 3 another client, 9 the attacker's own key
Request(form, enc, sk, ak, sig) == [t |-> "req", form |-> form, enc |-> enc, sk |-> sk, ak |-> ak, sig |-> sig, seal |-> None]
Answer(form, enc, sk, ak, sig, seal) == [t |-> "ans", form |-> form, enc |-> enc, sk |-> sk, ak |-> ak, sig |-> sig, seal |-> seal]

\* a term as SecRules sees it
Seen(m) == [form |-> m.form, enc |-> m.enc, pk |-> IF m.sk = None THEN 0 ELSE 1,
            ak |-> IF m.ak = 9 THEN 3 ELSE m.ak,
            sg |-> IF m.sig = NoSig THEN 0 ELSE IF m.sig = <<m.ak, m.sk>> THEN 1 ELSE 2]

Init == /\ c \in [level : Levels, ckey : {0, 2, 3}, pin : {0, 1}]
        /\ c.level = 5 => c.pin = 1                      \* full encryption needs the key of the server
        /\ k \in [skey : {0, 1}, auth : {0, 1}, full : {0, 1}]
        /\ cli = [s |-> "idle"] /\ srv = [s |-> "idle"] /\ net = {} /\ met = FALSE

-----------------------------------------------------------------------------
ClientSends ==
    /\ cli.s = "idle"
    /\ LET n == ClientNeeds(c)
           hide == n = 3
           m == IF c.level = 0 THEN Request(0, -9, None, 0, NoSig)
                ELSE Request(IF hide THEN 3 ELSE 0, IF hide THEN 5 ELSE c.level, "c",
                             c.ckey, IF c.ckey = 0 THEN NoSig ELSE <<c.ckey, "c">>)
       IN cli' = [s |-> "asks", q |-> m] /\ net' = net \cup {m}
    /\ UNCHANGED <<c, k, srv, met>>

(* What the server may grant: what was asked, or more of an optional level. *)
Granted(q) == CASE q.enc = 1 -> 3 [] q.enc = 2 -> 4 [] OTHER -> q.enc

ServerReads(m) ==
    /\ srv.s = "idle" /\ m \in net /\ m.t = "req"
    /\ IF ~Good(k, Seen(m)) THEN srv' = [s |-> "refuses", q |-> m] /\ net' = net
       ELSE LET enc == Granted(m)
                clear == Wants(m.enc) = 0
                x == Answer(IF m.form = 3 THEN 1 ELSE 0, IF clear THEN -9 ELSE enc, IF clear THEN None ELSE "s",
                            IF k.skey = 1 /\ ~clear THEN 1 ELSE 0,
                            IF k.skey = 1 /\ ~clear THEN <<1, "s">> ELSE NoSig, m.sk)
            IN srv' = [s |-> "runs", q |-> m, a |-> x] /\ net' = net \cup {x}
    /\ UNCHANGED <<c, k, cli, met>>

(* What a client may believe: the properties' wording and no more. *)
Believable(m) ==
    /\ Grants(m.enc) >= ClientNeeds(c)
    /\ Grants(m.enc) > 0 => m.sk # None /\ c.level > 0
    /\ ClientNeeds(c) = 3 => m.form = 1
    /\ m.form = 1 => (cli.q.form = 3 /\ m.seal = cli.q.sk)    \* it can be read
    /\ MustProve([level |-> c.level, ckey |-> IF c.ckey = 0 THEN 0 ELSE 1, pin |-> c.pin], Seen(m)) => ProvesServer(Seen(m))

ClientReads(m) ==
    /\ cli.s = "asks" /\ m \in net /\ m.t = "ans"
    /\ cli' = IF Believable(m) THEN [s |-> "runs", q |-> cli.q, a |-> m] ELSE [s |-> "fails", q |-> cli.q]
    /\ UNCHANGED <<c, k, srv, net, met>>

-----------------------------------------------------------------------------
(* Signatures the attacker has: its own, of anything; those in packets it   *)
(* has seen in the clear; one of an earlier session of the listed client    *)
(* and one of an earlier session of the server.                             *)
Keys == {"a", "c", "s", "old", "sold"}
Sigs == {NoSig, <<2, "old">>, <<1, "sold">>} \cup ({9} \X Keys) \cup { m.sig : m \in {x \in net : x.form = 0} }

Forge ==
    /\ Attacker /\ cli.s # "idle" /\ ~met
    /\ met' = TRUE
    /\ \E enc \in (Levels \ {0}) \cup {-9}, sk \in Keys \cup {None}, ak \in {0, 1, 2, 3, 9}, g \in Sigs :
         \/ \E form \in {0, 3} : /\ form = 3 => k.skey = 1
                                 /\ net' = net \cup {Request(form, enc, sk, ak, g)}
         \* an answer; sealed for the client only when the attacker holds a
         \* key the client would read with, which takes the server's long-term key
         \/ net' = net \cup {Answer(0, enc, sk, ak, g, None)}
    /\ UNCHANGED <<c, k, cli, srv>>

Lost == cli.s = "asks" /\ cli' = [s |-> "fails", q |-> cli.q] /\ UNCHANGED <<c, k, srv, net, met>>
        /\ (met \/ srv.s = "refuses")

Next == ClientSends \/ Forge \/ (\E m \in net : ServerReads(m) \/ ClientReads(m)) \/ Lost
        \/ (cli.s \in {"runs", "fails"} /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* C09: nobody runs below what it was told to require, whatever the attacker does
NoDowngrade == /\ cli.s = "runs" => Grants(cli.a.enc) >= ClientNeeds(c)
               /\ srv.s = "runs" => Grants(srv.a.enc) >= ServerNeeds(k)
               /\ (srv.s = "runs" /\ k.full = 1) => srv.q.form = 3
               /\ (cli.s # "idle" /\ ClientNeeds(c) = 3) => cli.q.form = 3
\* C10: the session of a server with a list is with the holder of a listed key
OnlyListed == (srv.s = "runs" /\ k.auth = 1) => srv.q.sk \in {"c", "old"} /\ (srv.q.sk = "c" => c.ckey = 2)
\* C20: the encrypted session of a client that knows its server is with that server
Pinned == (cli.s = "runs" /\ c.ckey # 0 /\ c.pin = 1 /\ Grants(cli.a.enc) > 0) => cli.a.sk \in {"s", "sold"}
\* C09, C20: nor does the attacker share the keys of such a session
Secret == /\ (cli.s = "runs" /\ c.ckey # 0 /\ c.pin = 1 /\ Grants(cli.a.enc) > 0) => cli.a.sk # "a"
          /\ (srv.s = "runs" /\ k.auth = 1) => srv.q.sk # "a"
\* an undisturbed pair that can agree does
HonestRuns == (~met /\ cli.s = "fails") => (srv.s = "refuses" \/ (srv.s = "runs" /\ ~Believable(srv.a)))
HonestAgrees == (~met /\ srv.s = "runs" /\ (c.pin = 1 => k.skey = 1)) => Believable(srv.a)
HonestServed == (~met /\ srv.s = "refuses") => \/ Refusals(k, Seen(cli.q)) # {}
                                              \/ (ClientNeeds(c) = 3 /\ k.skey = 0)
=============================================================================
