----------------------------- MODULE SilenceGen -----------------------------
(* Stimuli: a transfer whose network dies.  Up: direction of the file; Win:  *)
(* window; K: how many packets get through; Cut: which direction dies (c:    *)
(* from the client, s: from the server, b: both); Noise: what arrives        *)
(* instead (n nothing, d the last packet again, o an old one, g garbage, r   *)
(* the packets the transfer began with, e packets of the wrong kind);        *)
(* Level: encryption.                                                        *)
EXTENDS Integers, Sequences, TLC, CSV, IOUtils

CONSTANTS Ks, Wins, Levels

VARIABLES x, done

Init == /\ done = FALSE
        /\ x \in [up : {"u", "d"}, win : Wins, k : Ks, cut : {"c", "s", "b"}, noise : {"n", "d", "o", "g", "r", "e"}, level : Levels]
Next == /\ ~done /\ done' = TRUE /\ x' = x
        /\ CSVWrite("%1$s %2$s %3$s %4$s %5$s %6$s", <<x.up, x.win, x.k, x.cut, x.noise, x.level>>, IOEnv.STIM)
Spec == Init /\ [][Next]_<<x, done>>
=============================================================================
