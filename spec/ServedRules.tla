---------------------------- MODULE ServedRules -----------------------------
(* What a request may do to the files below and around the served directory. *)
(* Used by the model Served.tla and by the validation of histories.          *)
(* srv: the real path of the served directory; name: the segments of the     *)
(* requested file name; depth: the configured depth; list: the name of       *)
(* listings, "-" when they are off.                                          *)
EXTENDS FileTree, TLC

Inside(srv, p) == IsPrefixOf(srv, p)

\* segments that name nothing: they are left out of the name
Empties == {"", ".", "..", "SP", "SPDD", "DDSP"}
Norm(name) == SelectSeq(name, LAMBDA s : s \notin Empties)
Plain(name) == \A k \in DOMAIN name : name[k] \notin Empties
TooDeep(name, depth) == Len(Norm(name)) - 1 > depth

\* the file a name means
Target(t, srv, name) == Walk(t, srv, Norm(name), 12)
IsList(name, list) == list # "-" /\ Norm(name) # <<>> /\ Last(Norm(name)) = list
ListedDir(t, srv, name) == Walk(t, srv, Front(Norm(name)), 12)

MayRead(t, srv, name, depth) ==
    /\ Norm(name) # <<>> /\ ~TooDeep(name, depth)
    /\ LET x == Target(t, srv, name) IN x.st = "ok" /\ Inside(srv, x.at) /\ ~IsDir(t, x.at)

MayList(t, srv, name, depth, list) ==
    /\ IsList(name, list) /\ ~TooDeep(name, depth)
    /\ LET x == ListedDir(t, srv, name) IN x.st = "ok" /\ Inside(srv, x.at) /\ IsDir(t, x.at)

\* an upload creates a file, and the directories that lead to it, or replaces one
MayWrite(t, srv, name, depth, over) ==
    /\ Norm(name) # <<>> /\ ~TooDeep(name, depth)
    /\ LET x == Target(t, srv, name)
       IN  \/ x.st = "new" /\ Inside(srv, x.at)
           \/ x.st = "ok" /\ over /\ Inside(srv, x.at) /\ ~IsDir(t, x.at)

\* what is missing is named by the request itself, not by a link that leads nowhere yet
Straight(t, srv, name) == LET x == Target(t, srv, name) IN x.rest = SubSeq(Norm(name), Len(Norm(name)) - Len(x.rest) + 1, Len(Norm(name)))

\* the real path an accepted upload ends at
WriteAt(t, srv, name) == LET x == Target(t, srv, name) IN x.at \o x.rest

\* everything an upload may bring into being
MayAppear(t, srv, name, depth) ==
    IF Norm(name) = <<>> \/ TooDeep(name, depth) THEN {}
    ELSE LET x == Target(t, srv, name)
         IN  IF x.st = "new" /\ Inside(srv, x.at) THEN {x.at \o SubSeq(x.rest, 1, k) : k \in 1..Len(x.rest)} ELSE {}

\* a line of a listing names an entry of the directory d
NamesEntry(t, srv, d, line) ==
    /\ line.p # <<>> /\ Last(line.p) \in Entries(t, d)
    /\ LET x == Walk(t, srv, Front(line.p), 12) IN x.st = "ok" /\ x.at = d
    /\ LET n == t[Append(d, Last(line.p))] IN n.k = "l" \/ (n.k = "d" <=> line.d = 1)

ListsAll(t, srv, d, lines) ==
    /\ \A k \in DOMAIN lines : NamesEntry(t, srv, d, lines[k])
    /\ {Last(lines[k].p) : k \in DOMAIN lines} = Entries(t, d)
    /\ Len(lines) = Cardinality(Entries(t, d))
=============================================================================
