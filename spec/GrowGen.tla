------------------------------ MODULE GrowGen ------------------------------
(* Stimuli: what a writer does while its file is sent.  An append of a part  *)
(* of a block (p), a block (b), more (x), or up to the end of a block (f);   *)
(* then the close (c).  Each at once (0), after one more read of the sender  *)
(* (1), or in the middle of one: after the bytes were read and before the    *)
(* sender knows (m).                                                         *)
EXTENDS Integers, Sequences, TLC, CSV, IOUtils

CONSTANTS Most, Wins

VARIABLES x, win, done

Gaps == {"0", "1", "m"}
Tok == {a \o g : a \in {"p", "b", "x", "f"}, g \in Gaps}
RECURSIVE Text(_)
Text(s) == IF s = <<>> THEN "" ELSE " " \o Head(s) \o Text(Tail(s))

Init == /\ done = FALSE
        /\ win \in Wins
        /\ x \in UNION {[1..n -> Tok] : n \in 0..Most}
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<x, win>>
        /\ \A g \in Gaps : CSVWrite("%1$s%2$s c%3$s", <<ToString(win), Text(x), g>>, IOEnv.STIM)
Spec == Init /\ [][Next]_<<x, win, done>>
=============================================================================
