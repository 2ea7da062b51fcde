------------------------------- MODULE AtRest -------------------------------
(* A reader of files encrypted at rest and somebody who may have changed the *)
(* stored bytes in any way.  Two streams were stored under the key (1: the   *)
(* one wanted, 2: another file), one under another key (3).  Whatever is     *)
(* stored now, a block of it is either exactly a block of some stream or it  *)
(* is not (0): the adversary chooses block by block.                         *)
EXTENDS RestRules, Sequences, TLC, FiniteSets

CONSTANTS Lens    \* chunks of the streams 1, 2, 3

VARIABLES hdr, pos, out, done, ok, touched

vars == <<hdr, pos, out, done, ok, touched>>

Streams == 1..3
SameKey(s) == s # 3
\* the blocks there are: of a stream, or of none
Pieces == UNION {{[s |-> s, k |-> k, last |-> k = Lens[s] - 1, short |-> k = Lens[s] - 1] : k \in 0..(Lens[s] - 1)} : s \in Streams}
          \cup {[s |-> 0, k |-> 0, last |-> FALSE, short |-> b] : b \in BOOLEAN}
\* a stream that ends where a block ends leaves an empty block at the end of the transfer
Empty == [s |-> 0, k |-> 0, last |-> FALSE, short |-> TRUE]

\* hdr: the stream whose header is read (0: a nonce that belongs to none)
Init == /\ hdr \in {0} \cup Streams /\ pos = 0 /\ out = <<>> /\ done = FALSE /\ ok = FALSE /\ touched = (hdr # 1)

\* the reader takes a block; the key it has opens the streams 1 and 2
Take(p) == /\ ~done
           /\ touched' = (touched \/ p # [s |-> 1, k |-> pos, last |-> pos = Lens[1] - 1, short |-> pos = Lens[1] - 1])
           /\ IF hdr # 0 /\ SameKey(hdr) /\ Restores(p, hdr, pos)
              THEN /\ out' = Append(out, <<p.s, p.k>>)
                   /\ pos' = pos + 1
                   /\ done' = p.short /\ ok' = p.short
              ELSE /\ done' = TRUE /\ ok' = FALSE /\ UNCHANGED <<out, pos>>
           /\ UNCHANGED hdr

Next == \E p \in Pieces \cup {Empty} : Take(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Whole(s) == [k \in 1..Lens[s] |-> <<s, k - 1>>]

TypeOK == pos \in 0..4 /\ hdr \in 0..3
\* what is put out is a prefix of one file that was stored under the key
Pure == \E s \in {1, 2} : \E n \in 0..Lens[s] : out = SubSeq(Whole(s), 1, n)
\* success: all of it
Complete == ok => \E s \in {1, 2} : out = Whole(s) /\ hdr = s
\* nothing stored under another key is ever restored
OtherKey == hdr = 3 => out = <<>> /\ ~ok
\* what nobody touched is restored
Intact == done /\ ~touched => ok /\ out = Whole(1)
\* a change that is not the whole of the other file is no success
Changed == ok /\ touched => out = Whole(2)
Ends == <>done
=============================================================================
