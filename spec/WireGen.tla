------------------------------ MODULE WireGen ------------------------------
(* Datagrams: packets of all kinds as the documents have them (every subset  *)
(* and order of options, spellings, boundary values, lengths), and damaged   *)
(* ones (cut anywhere, a byte replaced, removed or added, other operation    *)
(* codes and modes).  One line per datagram: the bytes.                      *)
EXTENDS Wire, CSV, IOUtils, SequencesExt

VARIABLES x, done

Upper(s) == [k \in DOMAIN s |-> IF s[k] \in 97 .. 122 THEN s[k] - 32 ELSE s[k]]
Mixed(s) == [k \in DOMAIN s |-> IF k % 2 = 1 /\ s[k] \in 97 .. 122 THEN s[k] - 32 ELSE s[k]]
Fill(c, n) == [k \in 1 .. n |-> c]

Other == <<102, 111, 111>>
Multi == <<109, 117, 108, 116, 105, 99, 97, 115, 116>>
B == Name[1]
Tm == Name[2]
Ts == Name[3]
W == Name[4]

V(s) == s
Def == [o \in {B, Tm, Ts, W, Other, Multi} |->
          CASE o = B -> <<49, 48, 50, 52>> [] o = Tm -> <<51>> [] o = Ts -> <<48>> [] o = W -> <<52>>
            [] o = Other -> <<98, 97, 114>> [] OTHER -> <<50, 51, 57, 46, 49, 46, 49, 46, 49, 44, 49, 55, 53, 56, 44, 49>>]
\* every order of at most four options
Orders == {p \in UNION {[1 .. n -> {B, Tm, Ts, W, Other, Multi}] : n \in 0 .. 4} : \A j, k \in DOMAIN p : j # k => p[j] # p[k]}
Opts(p) == [k \in DOMAIN p |-> <<p[k], Def[p[k]]>>]
Spell(ps, f) == [k \in DOMAIN ps |-> <<CASE f = "l" -> ps[k][1] [] f = "u" -> Upper(ps[k][1]) [] OTHER -> Mixed(ps[k][1]), ps[k][2]>>]

File == <<100, 105, 114, 47, 97, 46, 116, 120, 116>>
Rq(op, file, mode, ps) == Two(op) \o Z(file) \o Z(mode) \o OptBytes(ps)

Lists == {Rq(op, File, Octet, Opts(p)) : op \in {1, 2}, p \in Orders} \cup {Two(6) \o OptBytes(Opts(p)) : p \in Orders}
Spelled == {Rq(op, File, Octet, Spell(Opts(p), f)) : op \in {1, 2}, p \in {p \in Orders : Len(p) \in {1, 2}}, f \in {"u", "m"}}
           \cup {Two(6) \o OptBytes(Spell(Opts(p), f)) : p \in {p \in Orders : Len(p) \in {1, 2}}, f \in {"u", "m"}}
Modes == {Rq(op, File, m, ps) : op \in {1, 2}, ps \in {<<>>, Opts(<<B>>)},
          m \in {Octet, Upper(Octet), Mixed(Octet), <<110, 101, 116, 97, 115, 99, 105, 105>>, <<78, 69, 84, 65, 83, 67, 73, 73>>, <<109, 97, 105, 108>>, <<111, 99, 116, 101>>, <<111, 99, 116, 101, 116, 115>>, <<32, 111, 99, 116, 101, 116>>, <<>>}}
Values == {Rq(op, File, Octet, <<<<n, v>>>>) : op \in {1, 2}, n \in {B, Tm, Ts, W, Name[5], Name[6], Name[7], Name[8]},
           v \in {<<48>>, <<49>>, <<56>>, <<50, 53, 53>>, <<50, 53, 54>>, <<53, 49, 49>>, <<53, 49, 50>>, <<54, 53, 52, 54, 52>>, <<54, 53, 53, 51, 53>>, <<54, 53, 53, 51, 54>>, <<52, 50, 57, 52, 57, 54, 55, 50, 57, 54>>, <<49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 53>>, <<49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 54>>, <<45, 49>>, <<43, 53>>, <<32, 53>>, <<53, 32>>, <<120>>, <<>>, <<48, 53, 49, 50>>, <<110, 111, 110, 101>>, <<102, 117, 108, 108>>, <<111, 112, 116, 105, 111, 110, 97, 108, 45, 100, 97, 116, 97>>, Fill(49, 87), Fill(49, 88), Fill(49, 89), Fill(65, 300)}}
           \cup {Two(6) \o OptBytes(<<<<n, v>>>>) : n \in {B, Tm, Ts, W}, v \in {<<48>>, <<49>>, <<56>>, <<53, 49, 50>>, <<54, 53, 52, 54, 52>>, <<54, 53, 53, 51, 53>>, <<54, 53, 53, 51, 54>>, <<120>>, <<>>, Fill(49, 88), Fill(49, 89)}}
Files == {Rq(op, f, Octet, ps) : op \in {1, 2}, ps \in {<<>>, Opts(<<W, B>>)},
          f \in {<<>>, <<97>>, <<32>>, <<46>>, <<46, 46>>, <<47>>, <<97, 32, 98>>, <<97, 92, 98>>, <<195, 188>>, <<226, 130, 172, 240, 159, 152, 128>>, <<97, 9, 98>>, <<45>>, <<126>>, <<42>>, <<97, 47, 98, 47, 99, 47, 100>>, <<1>>, <<127>>, <<255>>, <<195>>, <<192, 128>>, <<237, 160, 128>>}
                \cup {Fill(110, n) : n \in {20, 99, 100, 101, 149, 150, 151, 200, 500}}
                \cup {Fill(110, n) \o <<195, 188>> \o Fill(110, 20) : n \in {97, 98, 99, 100}}
                \cup {Fill(110, n) \o <<226, 130, 172>> : n \in {96, 97, 98, 99, 146, 147, 148}}}
Datas == {Two(3) \o Two(n) \o p : n \in {0, 1, 2, 255, 256, 32768, 65535}, p \in {<<>>, <<0>>, <<0, 0>>, <<255>>, <<5, 0, 0, 5>>} \cup {Fill(7, m) : m \in {39, 40, 41, 511, 512, 513, 600}}}
Acks == {Two(4) \o Two(n) \o p : n \in {0, 1, 2, 255, 256, 65535}, p \in {<<>>, <<0>>, <<9, 9>>}}
Errs == {Two(5) \o Two(n) \o m \o z : n \in 0 .. 9 \cup {255, 256, 65535}, z \in {<<>>, <<0>>, <<0, 0>>, <<0, 65>>},
           m \in {<<>>, <<110, 111>>, <<195, 188>>, <<252>>, Fill(101, 139), Fill(101, 140), Fill(101, 141), Fill(101, 400), Fill(101, 139) \o <<195, 188>>}}
Rep == {Rq(1, File, Octet, <<<<B, <<54, 48, 48>>>>, <<n, <<55, 48, 48>>>>>>) : n \in {B, Upper(B)}}
       \cup {Two(6) \o OptBytes(<<<<B, <<54, 48, 48>>>>, <<B, <<54, 48, 48>>>>>>)}
       \cup {Rq(1, File, Octet, [k \in 1 .. n |-> <<<<97 + k>>, <<49>>>>] \o Opts(<<B, W>>)) : n \in {7, 8, 9, 25}}
       \cup {Rq(1, File, Octet, [k \in 1 .. 8 |-> <<Name[k], <<49>>>>] \o ps) : ps \in {<<>>, Opts(<<B>>), Opts(<<Other>>)}}
       \cup {Two(6) \o OptBytes([k \in 1 .. 8 |-> <<Name[k], <<49>>>>])}
       \cup {Rq(1, File, Octet, <<<<<<>>, <<>>>>>> \o Opts(p)) : p \in {<<>>, <<B>>}} \cup {Rq(1, File, Octet, <<<<B, <<255>>>>>>), Rq(1, File, Octet, <<<<<<255>>, <<49>>>>>> \o Opts(<<B>>))}
       \cup {Rq(1, File, Octet, <<>>) \o Fill(0, n) : n \in 1 .. 20} \cup {Two(op) \o Fill(0, n) : op \in 1 .. 6, n \in 0 .. 5} \cup {Fill(c, n) : c \in {0, 1, 255}, n \in {0, 1, 2, 3, 512, 600}}

\* keys: of the right length, short, long, longer than any buffer, no base64, none
Key(n, e) == Fill(65, n) \o Fill(61, e)
KeyV == {<<>>, Key(43, 1), Key(22, 2), Key(60, 0), Key(86, 2), Key(88, 0), Key(400, 0), Fill(42, 44)}
LevelV == {<<100, 97, 116, 97>>, <<112, 114, 111, 116, 111, 99, 111, 108>>, <<102, 117, 108, 108>>}
SigV == {<<>>, Key(86, 2), Key(43, 1), Key(400, 0)}
No == <<0>>
KeyOpts == {SelectSeq(<<<<Name[5], v>>, <<Name[6], s>>, <<Name[7], a>>, <<Name[8], g>>>>, LAMBDA o : o[2] # No) :
              v \in LevelV, s \in KeyV \cup {No}, a \in KeyV \cup {No}, g \in SigV \cup {No}}
\* one of the keys may be wrong, or both and their like
KeySet == {ps \in KeyOpts : Cardinality({j \in DOMAIN ps : ps[j][2] \notin LevelV \cup {Key(43, 1), Key(86, 2)}}) <= 1}
Keys == {Rq(op, File, Octet, ps) : op \in {1}, ps \in KeySet} \cup {Two(6) \o OptBytes(ps) : ps \in KeySet}

\* packets that get damaged
Base == {Rq(1, File, Octet, <<>>), Rq(2, <<110>>, Octet, Opts(<<B, Ts>>)), Rq(1, <<97>>, Octet, Spell(Opts(<<W, Tm>>), "u")), Rq(1, <<97>>, Octet, Opts(<<Other, B>>)),
         Two(3) \o Two(1) \o <<100, 97, 116, 97>>, Two(4) \o Two(1), Two(5) \o Two(1) \o Z(<<70, 105, 108, 101, 32, 110, 111, 116, 32, 102, 111, 117, 110, 100>>), Two(6) \o OptBytes(Opts(<<B, W>>))}
Cuts == UNION {{SubSeq(p, 1, n) : n \in 0 .. Len(p)} \cup {SubSeq(p, n, Len(p)) : n \in 2 .. 5} : p \in Base}
Puts == UNION {{[p EXCEPT ![k] = c] : k \in DOMAIN p, c \in {0, 1, 32, 47, 128, 195, 255}} : p \in Base}
Drops == UNION {{SubSeq(p, 1, k - 1) \o SubSeq(p, k + 1, Len(p)) : k \in DOMAIN p} : p \in Base}
Adds == UNION {{SubSeq(p, 1, k) \o c \o SubSeq(p, k + 1, Len(p)) : k \in 0 .. Len(p), c \in {<<0>>, <<255>>, <<65>>, <<0, 0>>}} : p \in Base}
Ops == {Two(n) \o SubSeq(p, 3, Len(p)) : p \in Base, n \in 0 .. 9 \cup {255, 256, 257, 258, 512, 1024, 65535}}

All == IF IOEnv.PART = "good" THEN {d \in Lists \cup Spelled \cup Modes \cup Values \cup Files \cup Datas \cup Acks \cup Errs : Class(d) = "good"}
       ELSE IF IOEnv.PART = "bad" THEN {d \in Modes \cup Values \cup Files \cup Errs \cup Rep \cup Cuts \cup Puts \cup Drops \cup Adds \cup Ops : Class(d) # "good"}
       ELSE IF IOEnv.PART = "keys" THEN Keys
       ELSE Keys \cup Lists \cup Spelled \cup Modes \cup Values \cup Files \cup Datas \cup Acks \cup Errs \cup Rep \cup Cuts \cup Puts \cup Drops \cup Adds \cup Ops

Init == done = FALSE /\ x \in All
Next == /\ ~done /\ done' = TRUE /\ x' = x
        /\ CSVWrite("%1$s", <<x>>, IOEnv.STIM)
Spec == Init /\ [][Next]_<<x, done>>
=============================================================================
