------------------------------ MODULE ServedGen ------------------------------
(* Requests to a server whose directory holds files, directories and links   *)
(* that lead inside and outside.  One line: overwrite, depth, listing name,  *)
(* how the directory is given, extra entries, then the requests              *)
(* (operation:name/name/...).                                                *)
(*  r R read (plain, with options)   w s upload (long, short)                *)
(*  t upload announced too large     c two uploads of one name at once       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, CSV, IOUtils

VARIABLES x, done

Leaf == {"a", "b", "x", "y", "w", "z", "s", "new", "secret", "list", "lin", "lout", "labs", "ldang", "ldin", "..", ".", "EMPTY"}
Way == {"sub", "deep", "er", "out", "srv", "srv2", "up", "self", "dout", "din", "dpre", "upout", "ddang", "two", "empty", "od", "new", "a",
        "..", ".", "EMPTY", "SP", "SPDD", "DDSP", "BSL", "UML", "...", "w"}
Way1 == {"sub", "..", "EMPTY", "dout", "din", "dpre", "up", "two", "ddang", "new", "srv", "SPDD", "self"}

Names == {<<l>> : l \in Leaf \cup Way}
         \cup {<<w, l>> : w \in Way, l \in Leaf \cup {"deep", "new2", "upout", "od", "sub", "up"}}
         \cup {<<v, w, l>> : v, w \in Way1, l \in {"a", "x", "y", "new", "secret", "list", "lout", "z", "s", ".."}}
         \cup {<<v, w, u, l>> : v \in {"..", "up", "EMPTY"}, w \in {"..", "dout", "sub"}, u \in {"..", "od", "upout", "deep", "out"}, l \in {"secret", "z", "y", "new", "list"}}
Abs == {<<"EMPTY">> \o n : n \in {<<"a">>, <<"sub", "x">>, <<"out", "secret">>, <<"srv", "a">>, <<"new", "new2">>}}

Deep == {<<"a">>, <<"sub", "x">>, <<"sub", "deep", "y">>, <<"sub", "deep", "er", "w">>, <<"new">>, <<"new", "n2">>, <<"new", "n2", "n3">>,
         <<"sub", "new", "n2", "n3">>, <<"..", "..", "a">>, <<"sub", "..", "deep", "y">>, <<"two", "y">>, <<"two", "er", "w">>, <<"sub", ".", "x">>,
         <<"EMPTY", "sub", "EMPTY", "x">>, <<"sub", "deep", "list">>, <<"sub", "list">>, <<"list">>}
Long == {<<"LONG" \o ToString(k)>> : k \in {21, 99, 100, 101, 120, 147, 148, 149, 150, 151, 200}}
Lists == {<<"list">>, <<"sub", "list">>, <<"sub", "deep", "list">>, <<"sub", "empty", "list">>, <<"din", "list">>, <<"two", "list">>, <<"up", "list">>,
          <<"dout", "list">>, <<"dpre", "list">>, <<"sub", "upout", "list">>, <<"many", "list">>, <<"..", "list">>, <<"EMPTY", "list">>,
          <<"a", "list">>, <<"new", "list">>, <<"self", "list">>, <<"ddang", "list">>, <<"sub", "..", "list">>, <<"dout", "od", "list">>, <<"list", "list">>,
          <<"SP", "list">>, <<"many", "entry-001">>, <<"two", "er", "list">>, <<"many", "entry-000", "list">>}

RECURSIVE Join(_)
Join(s) == IF Len(s) = 1 THEN s[1] ELSE s[1] \o "/" \o Join(Tail(s))
Op(o, n) == " " \o o \o ":" \o Join(n)

Small == {<<"new">>, <<"a">>, <<"sub", "x">>, <<"nd", "new">>, <<"lin">>, <<"din", "new">>, <<"din", "x">>, <<"ldin">>, <<"sub">>, <<"nd">>, <<"lout">>}

Dirs == {"abs", "rel", "link", "dots"}
Line(ow, d, li, dir, big, ops) == ToString(ow) \o " " \o ToString(d) \o " " \o li \o " " \o dir \o " " \o ToString(big) \o ops

Init == /\ done = FALSE
        /\ x \in {Line(ow, 10, li, "abs", 0, Op(o, n)) : ow \in {0, 1}, li \in {"-", "list"}, o \in {"r", "w"}, n \in Names \cup Abs}
             \cup {Line(ow, d, li, dir, 0, Op(o, n)) : ow \in {0, 1}, d \in {0, 1, 2, 3}, li \in {"-", "list"}, dir \in {"abs"}, o \in {"r", "s"}, n \in Deep}
             \cup {Line(ow, 10, "-", dir, 0, Op(o, n) \o Op("r", n)) : ow \in {0, 1}, dir \in {"abs", "rel"}, o \in {"w", "s", "R"}, n \in Long}
             \cup {Line(0, d, li, dir, 1, Op(o, n)) : d \in {1, 10}, li \in {"list", "-"}, dir \in Dirs, o \in {"r", "R"}, n \in Lists}
             \cup {Line(ow, 10, "list", dir, 0, Op(o, n) \o Op(p, m) \o Op("r", m)) :
                       ow \in {0, 1}, dir \in Dirs, o \in {"w", "s", "c", "t"}, p \in {"w", "s", "t", "c"}, n, m \in Small}
Next == /\ ~done /\ done' = TRUE /\ x' = x
        /\ CSVWrite("%1$s", <<x>>, IOEnv.STIM)
Spec == Init /\ [][Next]_<<x, done>>
=============================================================================
