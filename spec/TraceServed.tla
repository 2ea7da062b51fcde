----------------------------- MODULE TraceServed -----------------------------
(* Histories of requests to the real server program and of the files below   *)
(* and around its directory, checked against ServedRules.                    *)
EXTENDS ServedRules, TLCExt, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES i, l, tree, viol
vars == <<i, l, tree, viol>>

T == Traces[i]
Srv == <<"srv">>

Build(ns) == [p \in {ns[k].p : k \in DOMAIN ns} |-> LET n == ns[CHOOSE k \in DOMAIN ns : ns[k].p = p] IN [k |-> n.k, c |-> n.c, to |-> n.to, abs |-> n.abs]]

After(t, ch) ==
    LET c == Build(ch)
        gone == {p \in DOMAIN c : c[p].k = "-"}
    IN  [p \in (DOMAIN t \cup DOMAIN c) \ gone |-> IF p \in DOMAIN c THEN c[p] ELSE t[p]]

Init == /\ i \in DOMAIN Traces
        /\ l = 0
        /\ tree = Build(Traces[i].tree)
        /\ viol = {}

V(prop, rule) == IF \E x \in viol : x[1] = prop /\ x[2] = rule THEN {} ELSE {<<prop, rule, l + 1>>}
When(c, v) == IF c THEN v ELSE {}

\* file names on the wire are limited only by the packet; fixed-size builds hold 150 bytes with the directory
Fits(e) == IF T.stack = 1 THEN e.len <= 40 ELSE e.len <= 200

Download(e) ==
    LET lists == MayList(tree, Srv, e.name, T.depth, T.list)
        reads == ~IsList(e.name, T.list) /\ MayRead(tree, Srv, e.name, T.depth)
        x == Target(tree, Srv, e.name)
        secret == {p \in DOMAIN tree : ~Inside(Srv, p) /\ tree[p].k = "f" /\ tree[p].c = e.got}
        dir == ListedDir(tree, Srv, e.name)
    IN  When(e.out = "data" /\ secret # {}, V("C12", "read-outside"))
        \cup When(e.out = "data" /\ TooDeep(e.name, T.depth), V("C12", "read-too-deep"))
        \cup When(e.out = "data" /\ ~IsList(e.name, T.list) /\ ~TooDeep(e.name, T.depth) /\ secret = {}
                    /\ ~(reads /\ tree[x.at].c = e.got), V("C12", "other-content"))
        \cup When(e.out = "data" /\ IsList(e.name, T.list) /\ ~lists, V("C22", "listed"))
        \cup When(e.out = "data" /\ lists /\ ~(e.text = 1 /\ ListsAll(tree, Srv, dir.at, e.lines)), V("C22", "lines"))
        \cup When(e.out = "refused" /\ lists /\ Plain(e.name) /\ Fits(e), V("C22", "list-refused"))
        \cup When(e.out = "refused" /\ reads /\ Plain(e.name) /\ Fits(e), IF Norm(e.name) # <<>> /\ Last(Norm(e.name)) = "list" THEN V("C22", "refused") ELSE V("C12", "refused"))
        \cup When(e.chg # <<>>, V("C12", "changed-by-reading"))

Upload(e) ==
    LET new == After(tree, e.chg)
        both == DOMAIN tree \cap DOMAIN new
        over == T.ow = 1
        may == MayWrite(tree, Srv, e.name, T.depth, over)
        appeared == DOMAIN new \ DOMAIN tree
        altered == {p \in DOMAIN tree : p \notin DOMAIN new \/ new[p] # tree[p]}
        taken == e.out = "stored" \/ e.out2 = "stored"
        at == WriteAt(tree, Srv, e.name)
        \* two uploads at once with overwriting: the end is not defined
        mixed == e.op = "c" /\ over
    IN  When(\E p \in appeared \cup altered : ~Inside(Srv, p), V("C12", "changed-outside"))
        \cup When(\E p \in appeared : Inside(Srv, p) /\ p \notin MayAppear(tree, Srv, e.name, T.depth), V("C12", "appeared"))
        \cup When(taken /\ TooDeep(e.name, T.depth), V("C12", "write-too-deep"))
        \cup When(taken /\ ~TooDeep(e.name, T.depth) /\ ~MayWrite(tree, Srv, e.name, T.depth, TRUE), V("C12", "accepted"))
        \cup When(taken /\ ~over /\ MayWrite(tree, Srv, e.name, T.depth, TRUE) /\ ~may, V("C13", "accepted"))
        \cup When(~over /\ \E p \in altered : Inside(Srv, p), V("C13", "changed"))
        \cup When(over /\ \E p \in altered : Inside(Srv, p) /\ p # at, V("C13", "changed-other"))
        \cup When(over /\ ~taken /\ e.out # "broken" /\ altered # {}, V("C13", "changed-by-refused"))
        \cup When(e.op = "t" /\ (taken \/ altered # {}), V("C13", "too-large"))
        \cup When(taken /\ may /\ ~mixed /\ ~(at \in DOMAIN new /\ new[at].k = "f" /\ (new[at].c = e.sent \/ e.op = "c")), V("C13", "not-replaced"))
        \cup When(e.op = "c" /\ ~over /\ e.out = "stored" /\ e.out2 = "stored", V("C13", "both"))
        \cup When(e.op \in {"w", "s"} /\ e.out = "refused" /\ may /\ Plain(e.name) /\ Straight(tree, Srv, e.name) /\ Fits(e), V("C12", "refused"))

Step(e) ==
    CASE e.e = "req" -> tree' = After(tree, e.chg) /\ viol' = viol \cup (IF e.up = 1 THEN Upload(e) ELSE Download(e))
      [] e.e = "died" -> tree' = tree /\ viol' = viol \cup V("C18", "died")
      [] OTHER -> UNCHANGED <<tree, viol>>

Next ==
    \/ /\ l < Len(T.ev)
       /\ Step(T.ev[l + 1]) /\ l' = l + 1 /\ i' = i
       /\ LET e == T.ev[l + 1]
          IN e.e = "req" => PrintT(<<"COV", e.out \o (IF e.up = 1 THEN " upload" ELSE " download")>>)
    \/ /\ l = Len(T.ev)
       /\ l' = l + 1
       /\ PrintT(<<"END", i, Cardinality(viol)>>)
       /\ \A x \in viol : PrintT(<<"VIOL", x[1], T.id, x[2], x[3]>>)
       /\ UNCHANGED <<i, tree, viol>>

Spec == Init /\ [][Next]_vars
Sane == Cardinality(viol) < 20
=============================================================================
