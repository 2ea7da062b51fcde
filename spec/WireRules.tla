----------------------------- MODULE WireRules -----------------------------
(* What a reader may make of a datagram.  r: the kind and fields that were   *)
(* read ("bad": refused); small: a build with strings of fixed size.         *)
EXTENDS Wire

OptSet(os) == {<<os[j][1], os[j][2]>> : j \in DOMAIN os}
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

\* what the fixed buffers of a small build hold
FitsFile(f) == Len(f) <= 150
FitsValue(v) == Len(v) <= 88
FitsMsg(m) == Len(m) <= 140

SameOpts(os, want, small) == IF small THEN OptSet(os) = {o \in want : FitsValue(o[2])} ELSE OptSet(os) = want
SameMsg(m, want, small) == IF small /\ ~FitsMsg(want) THEN Prefix(m, want) /\ Len(m) > 100 ELSE m = want

\* a well-formed datagram: understood, as what it means
MayReadGood(r, b, small) ==
    LET m == Meaning(b) IN
    \/ small /\ ~(FitsFile(m.file) /\ FitsMsg(m.msg)) /\ r.k = "bad"
    \/ r.k = m.k /\ r.file = m.file /\ r.blk = m.blk /\ r.payload = m.payload /\ r.code = m.code
       /\ SameOpts(r.opts, m.opts, small) /\ SameMsg(r.msg, m.msg, small)

\* a datagram with slips: refused, or understood as what it resembles
MayReadLoose(r, b) ==
    LET m == Meaning(b)
        s == Strings(Body(b))
        ps == Pairs(s, IF m.k = "oack" THEN 1 ELSE 3)
    IN \/ r.k = "bad"
       \/ /\ r.k = m.k /\ r.file = m.file /\ r.blk = m.blk /\ r.code = m.code
          /\ m.k \in {"rrq", "wrq", "oack"} => \A o \in OptSet(r.opts) : \E j \in DOMAIN ps : NameOf(ps[j][1]) = o[1] /\ ps[j][2] = o[2]

\* writing what was read: well-formed, and the same again
SameAgain(r, again) ==
    IF r.k = "oack" /\ r.opts = <<>> THEN again = <<0, 6>>
    ELSE LET m == Meaning(again) IN
         /\ Class(again) = "good" \/ (r.k \in {"rrq", "wrq"} /\ (r.file = <<>> \/ ~Text(r.file, 1)))
         /\ m.k = r.k /\ m.file = r.file /\ m.opts = OptSet(r.opts) /\ m.blk = r.blk /\ m.payload = r.payload
         /\ m.code = r.code /\ m.msg = r.msg
=============================================================================
