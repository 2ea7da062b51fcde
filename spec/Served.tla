------------------------------- MODULE Served --------------------------------
(* A server and the tree around its directory.  Each request goes through    *)
(* the steps the server takes: check the name and its depth, find what it    *)
(* means, create what is missing, open, truncate, store.  The invariants     *)
(* hold for every order of requests and wherever the links lead.             *)
EXTENDS ServedRules

CONSTANTS Over, Depth, List, MaxReq,
          EARLY   \* FALSE: containment is checked before anything is created (the design); TRUE: after (must fail)

Srv == <<"srv">>
D == [k |-> "d", c |-> "", to |-> <<>>, abs |-> 0]
F(c) == [k |-> "f", c |-> c, to |-> <<>>, abs |-> 0]
L(to, abs) == [k |-> "l", c |-> "", to |-> to, abs |-> abs]

Tree0 == (<<"srv">> :> D) @@ (<<"out">> :> D) @@ (<<"out", "secret">> :> F("S")) @@ (<<"srv2">> :> D) @@ (<<"srv2", "s">> :> F("T"))
         @@ (<<"srv", "a">> :> F("A")) @@ (<<"srv", "sub">> :> D) @@ (<<"srv", "sub", "x">> :> F("X"))
         @@ (<<"srv", "dout">> :> L(<<"..", "out">>, 0)) @@ (<<"srv", "labs">> :> L(<<"out", "secret">>, 1))
         @@ (<<"srv", "ldang">> :> L(<<"..", "out", "new">>, 0)) @@ (<<"srv", "din">> :> L(<<"sub">>, 0))
         @@ (<<"srv", "dpre">> :> L(<<"..", "srv2">>, 0)) @@ (<<"srv", "self">> :> L(<<"self">>, 0))

Names == {"a", "sub", "x", "new", "dout", "labs", "ldang", "din", "dpre", "self", "secret", "..", "s", "list"}
Requests == {<<a>> : a \in Names} \cup {<<a, b>> : a, b \in Names} \cup {<<a, b, c>> : a \in {"sub", "din", "dout", "..", "new"}, b, c \in {"new", "x", "..", "secret", "list"}}

VARIABLES tree, phase, req, n, sent, old
vars == <<tree, phase, req, n, sent, old>>

Init == tree = Tree0 /\ old = Tree0 /\ phase = "idle" /\ req = [op |-> "-", name |-> <<>>] /\ n = 0 /\ sent = "-"

Ask == /\ phase = "idle" /\ n < MaxReq
       /\ \E op \in {"r", "w"}, name \in Requests : req' = [op |-> op, name |-> name]
       /\ n' = n + 1 /\ phase' = "asked" /\ sent' = "-" /\ old' = tree /\ UNCHANGED tree

\* all answers of a read at once: it changes nothing
Read == /\ phase = "asked" /\ req.op = "r"
        /\ sent' = CASE MayList(tree, Srv, req.name, Depth, List) -> "list"
                     [] ~IsList(req.name, List) /\ MayRead(tree, Srv, req.name, Depth) -> tree[Target(tree, Srv, req.name).at].c
                     [] OTHER -> "-"
        /\ phase' = "idle" /\ UNCHANGED <<tree, req, n, old>>

Put(t, p, x) == (p :> x) @@ t

Check == /\ phase = "asked" /\ req.op = "w"
         /\ phase' = IF Norm(req.name) = <<>> \/ TooDeep(req.name, Depth) THEN "idle"
                     ELSE IF EARLY \/ MayWrite(tree, Srv, req.name, Depth, Over) THEN "create" ELSE "idle"
         /\ UNCHANGED <<tree, req, n, sent, old>>

\* one missing directory or the file itself
Create == /\ phase = "create"
          /\ LET x == Target(tree, Srv, req.name)
             IN  CASE x.st = "new" -> /\ tree' = Put(tree, Append(x.at, Head(x.rest)), IF Len(x.rest) = 1 THEN F("") ELSE D)
                                      /\ phase' = IF Len(x.rest) = 1 THEN "store" ELSE "create"
                   [] x.st = "ok" -> tree' = tree /\ phase' = IF Over /\ ~IsDir(tree, x.at) THEN "store" ELSE "idle"
                   [] OTHER -> tree' = tree /\ phase' = "idle"
          /\ UNCHANGED <<req, n, sent, old>>

Store == /\ phase = "store"
         /\ LET x == Target(tree, Srv, req.name)
            IN  tree' = IF Inside(Srv, x.at) THEN [tree EXCEPT ![x.at].c = "W"] ELSE tree
         /\ phase' = "idle" /\ UNCHANGED <<req, n, sent, old>>

Next == Ask \/ Read \/ Check \/ Create \/ Store
Spec == Init /\ [][Next]_vars

TypeOK == phase \in {"idle", "asked", "create", "store"}
\* C12
Untouched == \A p \in DOMAIN tree \cup DOMAIN old : ~Inside(Srv, p) => p \in DOMAIN tree /\ p \in DOMAIN old /\ tree[p] = old[p]
OnlyMeant == \A p \in DOMAIN tree \ DOMAIN old : p \in MayAppear(old, Srv, req.name, Depth)
NothingOutside == sent \notin {"S", "T"}
\* C13
Kept == ~Over => \A p \in DOMAIN old : tree[p] = old[p]
OneChanges == \A p \in DOMAIN old : p \in DOMAIN tree /\ (tree[p] # old[p] => p = WriteAt(old, Srv, req.name))
=============================================================================
