------------------------------ MODULE Growing ------------------------------
(* A file is sent while another program still writes it.  The writer appends *)
(* and closes; a watcher learns of the close some time later; the reader     *)
(* takes blocks of B: it notes whether the file is known to be closed, then  *)
(* reads, and gives a short block away only if it was closed before the read *)
(* (what is short otherwise is kept and read again).                         *)
EXTENDS Integers, Sequences, TLC

CONSTANTS B, Most     \* bytes in a block, bytes written at most

VARIABLES written, closed, told, noted, got, pc, kept, at, sent, ended

vars == <<written, closed, told, noted, got, pc, kept, at, sent, ended>>

Init == /\ written = 0 /\ closed = FALSE /\ told = FALSE
        /\ noted = FALSE /\ got = 0 /\ pc = "note" /\ kept = 0 /\ at = 0 /\ sent = 0 /\ ended = FALSE

Put(n) == ~closed /\ written + n <= Most /\ written' = written + n /\ UNCHANGED <<closed, told, noted, got, pc, kept, at, sent, ended>>
Close     == ~closed /\ closed' = TRUE /\ UNCHANGED <<written, told, noted, got, pc, kept, at, sent, ended>>
Tell      == closed /\ ~told /\ told' = TRUE /\ UNCHANGED <<written, closed, noted, got, pc, kept, at, sent, ended>>

Note == pc = "note" /\ ~ended /\ noted' = told /\ pc' = "read" /\ UNCHANGED <<written, closed, told, got, kept, at, sent, ended>>
\* the read gets what there is, at most what still fits into the block
Read == /\ pc = "read"
        /\ got' = IF written - at < B - kept THEN written - at ELSE B - kept
        /\ at' = at + got'
        /\ pc' = "decide"
        /\ UNCHANGED <<written, closed, told, noted, kept, sent, ended>>
\* anything may happen between the read and this
Decide == /\ pc = "decide"
          /\ IF kept + got = B \/ noted
             THEN sent' = sent + kept + got /\ kept' = 0 /\ ended' = (kept + got < B)
             ELSE kept' = kept + got /\ UNCHANGED <<sent, ended>>
          /\ got' = 0 /\ pc' = "note"
          /\ UNCHANGED <<written, closed, told, noted, at>>

Reader == Note \/ Read \/ Decide
Next == (\E n \in 1..Most : Put(n)) \/ Close \/ Tell \/ Reader
Spec == Init /\ [][Next]_vars /\ WF_vars(Reader) /\ WF_vars(Tell)

\* nothing that was not written, nothing twice
Faithful == sent + kept + got = at /\ at <= written
\* the end: closed, and everything written before it was sent
Whole == ended => closed /\ sent = written
\* once closed, the transfer ends
Ends == closed ~> ended
=============================================================================
