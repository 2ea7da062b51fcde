------------------------------ MODULE FileTree ------------------------------
(* A tree of files, directories and symbolic links, and what a path means in *)
(* it.  A tree is a function from paths (sequences of names from the root)   *)
(* to nodes [k : {"f", "d", "l"}, c : content, to : target of a link,        *)
(* abs : 1 when the target starts at the root].                              *)
EXTENDS Integers, Sequences, FiniteSets

Front(p) == SubSeq(p, 1, Len(p) - 1)
Last(p) == p[Len(p)]
IsPrefixOf(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p

IsDir(t, p) == p = <<>> \/ (p \in DOMAIN t /\ t[p].k = "d")

Nowhere == [st |-> "none", at |-> <<>>, rest |-> <<>>]

\* where a path leads, from the real directory cur: "ok" a file or a directory, "new" nothing yet below the real directory at,
\* "none" nowhere
RECURSIVE Walk(_, _, _, _)
Walk(t, cur, rest, fuel) ==
    IF rest = <<>> THEN [st |-> "ok", at |-> cur, rest |-> <<>>]
    ELSE LET h == Head(rest)
             n == Append(cur, h)
         IN  CASE h \in {"", "."} -> Walk(t, cur, Tail(rest), fuel)
               [] h = ".." -> Walk(t, IF cur = <<>> THEN cur ELSE Front(cur), Tail(rest), fuel)
               [] OTHER ->
                  IF n \notin DOMAIN t
                  THEN IF \E k \in DOMAIN rest : rest[k] \in {"", ".", ".."} THEN Nowhere ELSE [st |-> "new", at |-> cur, rest |-> rest]
                  ELSE IF t[n].k = "d" THEN Walk(t, n, Tail(rest), fuel)
                  ELSE IF t[n].k = "f" THEN IF Tail(rest) = <<>> THEN [st |-> "ok", at |-> n, rest |-> <<>>] ELSE Nowhere
                  ELSE IF fuel = 0 THEN Nowhere
                  ELSE Walk(t, IF t[n].abs = 1 THEN <<>> ELSE cur, t[n].to \o Tail(rest), fuel - 1)

Find(t, p) == Walk(t, <<>>, p, 12)

\* the entries of a real directory
Entries(t, d) == {Last(p) : p \in {q \in DOMAIN t : Len(q) = Len(d) + 1 /\ Front(q) = d}}
=============================================================================
