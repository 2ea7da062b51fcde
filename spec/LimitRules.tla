----------------------------- MODULE LimitRules -----------------------------
(* What a receiver with a size limit may do.  ann: the announced size, -9    *)
(* when none was (or none that is a number).  got: bytes stored.             *)
EXTENDS Integers

\* a transfer may begin
MayStart(ann, limit) == ann <= limit

\* bytes may be stored: never more than one block beyond the limit
MayStore(got, len, limit, bs) == got + len <= limit + bs

\* what is acknowledged counts as accepted
MayAccept(bytes, limit) == bytes <= limit

\* an honest file up to and including the limit is accepted
MustServe(ann, size, limit) == size <= limit /\ (ann = size \/ ann = -9)
=============================================================================
