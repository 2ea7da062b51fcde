----------------------------- MODULE TraceGrow -----------------------------
(* Histories of files that are sent while they are written, checked against  *)
(* what the model Growing says of the end.  Events in the order of time:     *)
(* "ap" l bytes are written, "cl" the file is closed, "rd" the sender's read *)
(* got l bytes, "da" a block with l bytes of the file arrives (m: the next   *)
(* ones, f: it does not fill the block), "quit" the sender exits (k: it      *)
(* reports success), "again" the nonce of an earlier stream, "end" nothing   *)
(* more came for a long time.                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES i, l, s, viol
vars == <<i, l, s, viol>>

T == Traces[i]

Init == /\ i \in DOMAIN Traces
        /\ l = 0
        /\ s = [written |-> 0, closed |-> FALSE, sent |-> 0, ended |-> FALSE, late |-> FALSE]
        /\ viol = {}

V(rule) == IF \E x \in viol : x[2] = rule THEN {} ELSE {<<"C21", rule, l + 1>>}
When(c, v) == IF c THEN v ELSE {}

Step(e) ==
    CASE e.e = "ap" -> s' = [s EXCEPT !.written = @ + e.l, !.late = @ \/ s.sent > 0] /\ UNCHANGED viol
      [] e.e = "cl" -> s' = [s EXCEPT !.closed = TRUE] /\ UNCHANGED viol
      [] e.e = "da" ->
            /\ s' = [s EXCEPT !.sent = @ + e.l, !.ended = @ \/ e.f = 1]
            /\ viol' = viol \cup When(e.m = 0 \/ s.sent + e.l > s.written, V("other-bytes"))
                            \cup When(s.ended, V("after-the-end"))
                            \cup When(e.f = 1 /\ ~s.closed, V("ended-before-the-close"))
                            \cup When(e.f = 1 /\ s.sent + e.l # s.written, V("bytes-lost"))
      [] e.e = "again" -> s' = s /\ viol' = viol \cup {<<"C19", "nonce-used-again", l + 1>>}
      [] e.e = "quit" ->
            s' = s /\ viol' = viol \cup When(e.k = 1 /\ (~s.closed \/ s.sent # s.written \/ ~s.ended), V("success-without-the-whole"))
                                   \cup When(e.k = 0, V("failed"))
      [] OTHER -> UNCHANGED <<s, viol>>

Next ==
    \/ /\ l < Len(T.ev)
       /\ Step(T.ev[l + 1]) /\ l' = l + 1 /\ i' = i
    \/ /\ l = Len(T.ev)
       /\ l' = l + 1
       /\ LET v == viol \cup When(s.closed /\ ~s.ended, V("does-not-end"))
          IN viol' = v /\ PrintT(<<"END", i, Cardinality(v)>>)
                       /\ \A x \in v : PrintT(<<"VIOL", x[1], T.id, x[2], x[3]>>)
       /\ PrintT(<<"COV", IF s.late THEN "written after the first block was sent" ELSE "written before the first block was sent">>)
       /\ UNCHANGED <<i, s>>

Spec == Init /\ [][Next]_vars
Sane == s.sent >= 0
=============================================================================
