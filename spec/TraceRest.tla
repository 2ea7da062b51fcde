----------------------------- MODULE TraceRest -----------------------------
(* Histories of files stored encrypted, changed and fetched again, checked   *)
(* against RestRules (those the model AtRest is checked with).               *)
(* T.b: block size of the upload, T.b2: of the download, T.n: bytes of the   *)
(* file, T.ns: bytes of the files stored under the key (1: this one, 2: the  *)
(* other).  Events: "st" a stored block (l bytes, g: it decrypts as the next *)
(* chunk, marked last or not, to the next h bytes of the file), "up" the end *)
(* of the upload, "pc" a block as it is fetched (s, k, f: which chunk it is, *)
(* f: it does not fill the block), "wr" bytes put out (m: the next of the    *)
(* file whose header is read), "done", "leak" bytes of the file can be read  *)
(* on the way or where they are stored, "again" a nonce is used twice.       *)
(* T.fair: no acknowledgement of the upload was lost.                        *)
EXTENDS RestRules, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES i, l, s, viol
vars == <<i, l, s, viol>>

T == Traces[i]

Init == /\ i \in DOMAIN Traces
        /\ l = 0
        /\ s = [st |-> 0, n |-> 0, up |-> FALSE, c |-> 0, bad |-> FALSE, all |-> FALSE, got |-> 0, ok |-> FALSE, over |-> FALSE]
        /\ viol = {}

V(rule) == IF \E x \in viol : x[2] = rule THEN {} ELSE {<<"C19", rule, l + 1>>}
When(c, v) == IF c THEN v ELSE {}

\* the stream whose header and key are used for fetching (0: none)
H == T.h
\* the header says the block size it is fetched with
Fits == T.hb = T.b2

Step(e) ==
    CASE e.e = "st" ->
            /\ s' = [s EXCEPT !.st = @ + 1, !.n = @ + e.h]
            /\ viol' = viol \cup When(e.g = 0, V("stored-is-no-chunk"))
                            \cup When(e.g = 1 /\ (e.h # Holds(s.st, T.n, T.b) \/ e.l # Stored(s.st, T.n, T.b)), V("stored-layout"))
      [] e.e = "leak" -> s' = s /\ viol' = viol \cup V("plain-bytes-left")
      [] e.e = "again" -> s' = s /\ viol' = viol \cup V("nonce-used-again")
      [] e.e = "up" ->
            /\ s' = [s EXCEPT !.up = e.k = 1]
            /\ viol' = viol \cup When(e.k = 0 /\ Possible(T.b) /\ T.fair = 1, V("upload-failed"))
                            \cup When(e.k = 1 /\ (~Possible(T.b) \/ s.st # Chunks(T.n, T.b) \/ s.n # T.n), V("upload-not-whole"))
      [] e.e = "pc" ->
            LET p == [s |-> e.s, k |-> e.k, last |-> e.la = 1, short |-> e.f = 1]
                r == ~s.bad /\ ~s.all /\ Restores(p, H, s.c)
            IN s' = [s EXCEPT !.c = IF r THEN @ + 1 ELSE @, !.bad = @ \/ (~r /\ ~s.all), !.all = @ \/ (r /\ p.short)]
               /\ UNCHANGED viol
      [] e.e = "wr" ->
            /\ s' = [s EXCEPT !.got = @ + e.l]
            /\ viol' = viol \cup When(e.m = 0 \/ H = 0, V("put-out-other-bytes"))
                            \cup When(H # 0 /\ s.got + e.l > At(s.c, T.b) /\ ~s.all, V("put-out-unverified"))
      [] e.e = "done" ->
            /\ s' = [s EXCEPT !.ok = e.k = 1, !.over = TRUE]
            /\ viol' = viol \cup When(e.k = 1 /\ (H = 0 \/ s.got # T.ns[IF H = 0 THEN 1 ELSE H]), V("success-without-the-whole"))
                            \cup When(e.k = 1 /\ ~s.all, V("success-on-altered"))
                            \cup When(e.k = 0 /\ s.all /\ ~s.bad /\ Fits, V("intact-refused"))
      [] e.e = "panic" -> s' = s /\ viol' = viol \cup {<<"C18", "panic", l + 1>>}
      [] OTHER -> UNCHANGED <<s, viol>>

Next ==
    \/ /\ l < Len(T.ev)
       /\ Step(T.ev[l + 1]) /\ l' = l + 1 /\ i' = i
    \/ /\ l = Len(T.ev)
       /\ l' = l + 1
       /\ PrintT(<<"END", i, Cardinality(viol)>>)
       /\ \A x \in viol : PrintT(<<"VIOL", x[1], T.id, x[2], x[3]>>)
       /\ PrintT(<<"COV", IF ~s.up THEN "not stored" ELSE IF ~s.over THEN "stored" ELSE IF s.ok THEN (IF T.same = 1 THEN "restored" ELSE "restored although changed")
                          ELSE IF s.got > 0 THEN "refused after some chunks" ELSE "refused at once">>)
       /\ UNCHANGED <<i, s, viol>>

Spec == Init /\ [][Next]_vars
Sane == s.st >= 0
=============================================================================
