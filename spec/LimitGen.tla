------------------------------ MODULE LimitGen ------------------------------
(* Stimuli around a size limit: the way of the file, whether the other end   *)
(* is scripted or real, the limit (L: blocks and rest), how far the file is  *)
(* from it (O), the announcement, the window and the network.                *)
EXTENDS Integers, Sequences, TLC, CSV, IOUtils

VARIABLES x, done

\* what can be said of the size: true, nothing, no number, the limit itself, one more, zero, much more
Ann == {"t", "n", "x", "l", "m", "z", "h"}

Init == /\ done = FALSE
        /\ x \in [up : {"u", "d"}, peer : {"s", "r"}, lim : {"one", "three", "rest"}, off : {"-b", "-1", "0", "1", "b", "2b1"},
                  ann : Ann, win : {1, 4}, net : {"clean", "lossy"}]
        /\ x.peer = "r" => x.ann \in {"t", "n"}
Next == /\ ~done /\ done' = TRUE /\ x' = x
        /\ CSVWrite("%1$s %2$s %3$s %4$s %5$s %6$s %7$s", <<x.up, x.peer, x.lim, x.off, x.ann, x.win, x.net>>, IOEnv.STIM)
Spec == Init /\ [][Next]_<<x, done>>
=============================================================================
