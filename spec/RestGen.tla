------------------------------ MODULE RestGen ------------------------------
(* Stimuli: a file that is stored encrypted, changed, and fetched again.     *)
(* size: its length around the boundaries of chunks (c0: the first one is    *)
(* full, c1: two are, c3: four are); edit: what happens to the stored bytes, *)
(* w: at which block (first, second, middle, last); win: the window.         *)
EXTENDS Integers, Sequences, TLC, CSV, IOUtils

CONSTANTS Wins

VARIABLES x, done

Sizes == {"0", "1", "c0-", "c0", "c0+", "c1-", "c1", "c1+", "c3", "c3+"}
\* drop a block, swap it with the next or the last, repeat it, alter its first, a middle or its last byte, cut in or before it,
\* delete or insert a byte, take it from another stream under the same key
AtBlock == {"drop", "swap", "swapl", "rep", "alt0", "altm", "altt", "cutm", "cuta", "del", "ins", "spl"}
\* nothing, append a byte, a block, the last block again, another stored file instead, another nonce, another block size in the
\* header, another key, a byte in front, nothing stored, fetched with smaller or larger blocks
AtAll == {"none", "add1", "addb", "addl", "oth", "nonce", "bs1", "bs2", "bs3", "key", "pre", "emp", "blk-", "blk+"}

Init == /\ done = FALSE
        /\ x \in [size : Sizes, edit : AtBlock, w : {"f", "s", "m", "l"}, win : Wins]
                 \cup [size : Sizes, edit : AtAll, w : {"f"}, win : Wins]
Next == /\ ~done /\ done' = TRUE /\ x' = x
        /\ CSVWrite("%1$s %2$s %3$s %4$s", <<x.size, x.edit, x.w, x.win>>, IOEnv.STIM)
Spec == Init /\ [][Next]_<<x, done>>
=============================================================================
