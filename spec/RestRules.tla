----------------------------- MODULE RestRules -----------------------------
(* Files encrypted at rest: the format of a stored stream and when a piece   *)
(* of it may be restored.  B: block size of the transfer that stored it.     *)
(* A stream is a header (2 bytes block size, 19 bytes nonce) and chunks,     *)
(* each with a tag of 16 bytes, cut so that header and chunk 0, and every    *)
(* later chunk but the last, fill a block; the last chunk is always shorter. *)
EXTENDS Integers

Header == 21
Tag    == 16
MinB   == Header + Tag
MaxB   == 1425

Min2(a, b) == IF a < b THEN a ELSE b

\* file bytes chunk k can hold
Cap(k, B) == IF k = 0 THEN B - Header - Tag ELSE B - Tag
\* file bytes before chunk k
At(k, B) == IF k = 0 THEN 0 ELSE Cap(0, B) + (k - 1) * Cap(1, B)
\* chunk k of a file of n bytes
Holds(k, n, B) == Min2(Cap(k, B), n - At(k, B))
IsLast(k, n, B) == Holds(k, n, B) < Cap(k, B)
\* bytes of block k of the stored stream
Stored(k, n, B) == Holds(k, n, B) + Tag + (IF k = 0 THEN Header ELSE 0)
\* chunks of a file of n bytes (the last is never full: one more when the bytes end with a chunk)
RECURSIVE Count(_, _, _)
Count(k, n, B) == IF IsLast(k, n, B) THEN k + 1 ELSE Count(k + 1, n, B)
Chunks(n, B) == Count(0, n, B)

Possible(B) == B >= MinB /\ B <= MaxB

\* a piece of a stored file [s: the stream it is from (0: none), k: its place there, last: it was the last,
\* short: it does not fill the block] is restored as chunk c of stream h
Restores(piece, h, c) == piece.s = h /\ h # 0 /\ piece.k = c /\ (piece.last <=> piece.short)
============================================================================
