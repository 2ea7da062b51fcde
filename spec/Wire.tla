-------------------------------- MODULE Wire --------------------------------
(* The packets of RFC 1350, 2347, 2348, 2349 and 7440 as sequences of bytes: *)
(* what a datagram means (Meaning), how well it keeps to the layouts (Class),*)
(* and how a packet is written (Encode).                                     *)
(* Class: "good"  written as the documents say: has to be understood         *)
(*        "loose" tolerable slips, or more than the documents define: may be *)
(*                understood or refused                                      *)
(*        "bad"   no packet                                                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

\* option names, as bytes
Name == <<<<98, 108, 107, 115, 105, 122, 101>>,
          <<116, 105, 109, 101, 111, 117, 116>>,
          <<116, 115, 105, 122, 101>>,
          <<119, 105, 110, 100, 111, 119, 115, 105, 122, 101>>,
          <<101, 110, 99, 108, 101, 118, 101, 108>>,
          <<115, 112, 117, 98, 107>>,
          <<97, 112, 117, 98, 107>>,
          <<115, 105, 103>>>>
Known == 1 .. Len(Name)
Octet == <<111, 99, 116, 101, 116>>

Lower(s) == [k \in DOMAIN s |-> IF s[k] \in 65 .. 90 THEN s[k] + 32 ELSE s[k]]

\* well-formed UTF-8 (over-long forms and surrogates are not)
RECURSIVE Text(_, _)
Text(s, k) ==
    IF k > Len(s) THEN TRUE
    ELSE LET c == s[k]
             more == IF c < 128 THEN 0 ELSE IF c \in 194 .. 223 THEN 1 ELSE IF c \in 224 .. 239 THEN 2 ELSE IF c \in 240 .. 244 THEN 3 ELSE -1
         IN /\ more >= 0
            /\ k + more <= Len(s)
            /\ \A j \in 1 .. more : s[k + j] \in 128 .. 191
            /\ (c = 224 => s[k + 1] >= 160) /\ (c = 237 => s[k + 1] < 160)
            /\ (c = 240 => s[k + 1] >= 144) /\ (c = 244 => s[k + 1] < 144)
            /\ Text(s, k + 1 + more)

\* the strings of b, each ended by a zero byte; Rest: what follows the last of them
Zeros(b) == SetToSortSeq({k \in DOMAIN b : b[k] = 0}, <)
Strings(b) == LET z == Zeros(b) IN [k \in DOMAIN z |-> SubSeq(b, (IF k = 1 THEN 0 ELSE z[k - 1]) + 1, z[k] - 1)]
Rest(b) == LET z == Zeros(b) IN Len(b) - (IF z = <<>> THEN 0 ELSE z[Len(z)])

Word(b, k) == b[k] * 256 + b[k + 1]
Op(b) == IF Len(b) < 2 THEN 0 ELSE Word(b, 1)
Body(b) == SubSeq(b, 3, Len(b))

\* options: pairs of strings from the k-th on
Pairs(s, k) == [j \in 1 .. (Len(s) - k + 1) \div 2 |-> <<s[k + 2 * j - 2], s[k + 2 * j - 1]>>]
NameOf(n) == LET m == {x \in Known : Name[x] = Lower(n)} IN IF m = {} THEN 0 ELSE CHOOSE x \in m : TRUE

\* known options with their values (of one that is repeated: the last), as a set of pairs
Options(ps) == {<<NameOf(ps[j][1]), ps[j][2]>> : j \in {j \in DOMAIN ps : NameOf(ps[j][1]) > 0 /\ \A m \in j + 1 .. Len(ps) : NameOf(ps[m][1]) # NameOf(ps[j][1])}}
Repeated(ps) == {NameOf(ps[j][1]) : j \in {j \in DOMAIN ps : \E m \in DOMAIN ps : m # j /\ Lower(ps[m][1]) = Lower(ps[j][1])}}
Clean(ps) == /\ Repeated(ps) = {}
             /\ \A j \in DOMAIN ps : ps[j][1] # <<>> /\ Text(ps[j][1], 1) /\ Text(ps[j][2], 1)

Empty == [k |-> "bad", file |-> <<>>, opts |-> {}, blk |-> 0, payload |-> <<>>, code |-> 0, msg |-> <<>>]

Class(b) ==
    LET op == Op(b)  s == Strings(Body(b))  n == Len(b)
    IN CASE op \in {1, 2} ->
              IF Len(s) < 2 \/ Rest(Body(b)) # 0 \/ Len(s) % 2 # 0 \/ ~Text(s[1], 1) \/ Lower(s[2]) # Octet THEN "bad"
              ELSE IF s[1] = <<>> \/ ~Clean(Pairs(s, 3)) THEN "loose" ELSE "good"
         [] op = 3 -> IF n < 4 THEN "bad" ELSE "good"
         [] op = 4 -> IF n < 4 THEN "bad" ELSE IF n > 4 THEN "loose" ELSE "good"
         [] op = 5 ->
              IF n < 4 THEN "bad"
              ELSE LET m == SubSeq(b, 5, n) IN
                   IF Zeros(m) = <<>> \/ Rest(m) # 0 \/ Len(Strings(m)) # 1 \/ Word(b, 3) > 8 \/ ~Text(m, 1) THEN "loose" ELSE "good"
         [] op = 6 ->
              IF Rest(Body(b)) # 0 \/ Len(s) % 2 # 0 THEN "bad"
              ELSE IF s = <<>> \/ ~Clean(Pairs(s, 1)) THEN "loose" ELSE "good"
         [] OTHER -> "bad"

Meaning(b) ==
    LET op == Op(b)  s == Strings(Body(b))
    IN IF Class(b) = "bad" THEN Empty
       ELSE CASE op \in {1, 2} -> [Empty EXCEPT !.k = IF op = 1 THEN "rrq" ELSE "wrq", !.file = s[1], !.opts = Options(Pairs(s, 3))]
              [] op = 3 -> [Empty EXCEPT !.k = "data", !.blk = Word(b, 3), !.payload = SubSeq(b, 5, Len(b))]
              [] op = 4 -> [Empty EXCEPT !.k = "ack", !.blk = Word(b, 3)]
              [] op = 5 -> LET m == SubSeq(b, 5, Len(b)) IN
                           [Empty EXCEPT !.k = "err", !.code = Word(b, 3), !.msg = IF Zeros(m) = <<>> THEN m ELSE Strings(m)[1]]
              [] op = 6 -> [Empty EXCEPT !.k = "oack", !.opts = Options(Pairs(s, 1))]

\* writing
Two(n) == <<n \div 256, n % 256>>
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Z(s) == s \o <<0>>
OptBytes(ps) == Cat([j \in DOMAIN ps |-> Z(ps[j][1]) \o Z(ps[j][2])])
Encode(k, f) ==
    CASE k \in {"rrq", "wrq"} -> Two(IF k = "rrq" THEN 1 ELSE 2) \o Z(f.file) \o Z(Octet) \o OptBytes(f.opts)
      [] k = "data" -> Two(3) \o Two(f.blk) \o f.payload
      [] k = "ack"  -> Two(4) \o Two(f.blk)
      [] k = "err"  -> Two(5) \o Two(f.code) \o Z(f.msg)
      [] k = "oack" -> Two(6) \o OptBytes(f.opts)
=============================================================================
