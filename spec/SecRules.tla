------------------------------ MODULE SecRules ------------------------------
(* Who is served, at which level of encryption, and by whom (README:        *)
(* "Encryption").                                                           *)
(*                                                                          *)
(* Levels as they appear in packets: 0 none, 1 optional-data,               *)
(* 2 optional-protocol, 3 data, 4 protocol, 5 full, -9 absent, -1 garbage.  *)
(* A packet's form: 0 in the clear, 1 encrypted as a whole, 2 a data packet *)
(* with an encrypted body, 3 encrypted to the long-term key of the server,  *)
(* 4 unreadable.                                                            *)
(* pk: the session key is 0 missing, 1 well formed, 2 malformed.            *)
(* ak: the authentication key is 0 missing, 1 the server's, 2 one on the    *)
(* server's list, 3 another one, 4 malformed.                               *)
(* sg: the signature is 0 missing, 1 by ak over the session key of the same *)
(* packet, 2 something else.                                                *)
EXTENDS Integers

Top(a, b) == IF a > b THEN a ELSE b

(* Strength: 0 nothing, 1 file contents, 2 every packet of the session,     *)
(* 3 the request too.                                                       *)
Grants(enc)   == CASE enc = 3 -> 1 [] enc = 4 -> 2 [] enc = 5 -> 3 [] OTHER -> 0
Requires(enc) == CASE enc = 3 -> 1 [] enc = 4 -> 2 [] enc = 5 -> 3 [] OTHER -> 0
Wants(enc)    == CASE enc \in {1, 3} -> 1 [] enc \in {2, 4} -> 2 [] enc = 5 -> 3 [] OTHER -> 0
OfForm(form)  == CASE form = 1 -> 2 [] form = 2 -> 1 [] OTHER -> 0

Proven(q) == q.ak = 2 /\ q.sg = 1 /\ q.pk = 1

(* k: [skey, auth, full] - the server has a key, a list, requires full      *)
(* encryption.  q: [form, enc, pk, ak, sg].  The properties that forbid to  *)
(* serve the request.                                                       *)
Refusals(k, q) ==
       (IF k.full = 1 /\ ~(q.form = 3 /\ q.enc = 5) THEN {"C09"} ELSE {})
  \cup (IF k.auth = 1 /\ Wants(q.enc) = 0 THEN {"C09"} ELSE {})
  \cup (IF k.auth = 1 /\ ~Proven(q) THEN {"C10"} ELSE {})

(* Nothing is wrong with the request. *)
Good(k, q) ==
    /\ Refusals(k, q) = {}
    /\ q.enc # -1 /\ q.form \in {0, 3}
    /\ q.enc = 5 => q.form = 3
    /\ q.form = 3 => k.skey = 1
    /\ Wants(q.enc) > 0 => q.pk = 1
    /\ q.ak # 0 => q.sg = 1

(* The least strength of a session the server may run, whoever asks. *)
ServerNeeds(k) == IF k.full = 1 THEN 3 ELSE IF k.auth = 1 THEN 1 ELSE 0

(* c: [level, ckey, pin] - what the client was told.  With a pinned key a   *)
(* client that requires protocol encryption encrypts its request too.       *)
ClientNeeds(c) == IF c.level = 4 /\ c.pin = 1 THEN 3 ELSE Requires(c.level)

(* The server's proof in an answer a: [enc, pk, ak, sg]. *)
ProvesServer(a) == a.ak = 1 /\ a.sg = 1 /\ a.pk = 1
MustProve(c, a) == c.ckey = 1 /\ c.pin = 1 /\ (Requires(c.level) > 0 \/ (c.level \in {1, 2} /\ Grants(a.enc) > 0))
=============================================================================
