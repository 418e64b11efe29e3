------------------------------ MODULE StorePaths ------------------------------
(* A tree of directories, files and links, and what an operation of the store *)
(* may do to it. Paths are sequences of names from the top; a tree is a       *)
(* function from paths to nodes [k, c, t]: k "d", "f" (content c) or "l"      *)
(* (target: the path t from the top).                                         *)
EXTENDS Naturals, Sequences, FiniteSets
Out == <<"/OUT/">>
\* links that lead nowhere in the end
Loop == <<"/LOOP/">>
Front(p) == SubSeq(p, 1, Len(p) - 1)
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Within(root, p) == IsPrefix(root, p)
RECURSIVE Norm(_, _)
\* the path that the components lead to from base, as written (without links)
Norm(base, cs) ==
  IF base = Out THEN Out
  ELSE IF cs = <<>> THEN base
  ELSE Norm(IF Head(cs) \in {"", "."} THEN base
            ELSE IF Head(cs) = ".." THEN (IF base = <<>> THEN Out ELSE Front(base))
            ELSE Append(base, Head(cs)), Tail(cs))
RECURSIVE Walk(_, _, _, _)
\* the path after following all links
Walk(tree, done, todo, fuel) ==
  IF fuel = 0 THEN Loop
  ELSE IF todo = <<>> THEN done
  ELSE LET p == Append(done, Head(todo))
       IN IF p \in DOMAIN tree /\ tree[p].k = "l" THEN IF tree[p].t = Out THEN Out ELSE Walk(tree, <<>>, tree[p].t \o Tail(todo), fuel - 1)
          ELSE Walk(tree, p, Tail(todo), fuel)
Phys(tree, p) == IF p = Out THEN Out ELSE Walk(tree, <<>>, p, 12)
Has(tree, p) == p \in DOMAIN tree
Kind(tree, p) == IF p = <<>> THEN "d" ELSE IF Has(tree, p) THEN tree[p].k ELSE "none"
\* what is found at a path, links followed
Found(tree, p) == Kind(tree, Phys(tree, p))
Content(tree, p) == IF Found(tree, p) = "f" THEN tree[Phys(tree, p)].c ELSE 0
\* a place below a file
Blocked(tree, p) == \E i \in 1 .. Len(p) - 1 : Kind(tree, Phys(tree, SubSeq(p, 1, i))) = "f"
Gone(tree, ps) == [q \in {q \in DOMAIN tree : ~\E p \in ps : IsPrefix(p, q)} |-> tree[q]]
\* nothing differs except under the paths ps; directories may appear on the way to them
Same(a, b, ps, under) ==
  LET x == Gone(a, ps)
      y == Gone(b, ps)
  IN /\ \A q \in DOMAIN x : q \in DOMAIN y /\ y[q] = x[q]
     /\ \A q \in DOMAIN y : q \notin DOMAIN x => y[q].k = "d" /\ \E p \in ps \cup under : IsPrefix(q, p)
\* (links that are relative lead elsewhere when they are moved)
Subtree(tree, p) == {[at |-> SubSeq(q, Len(p) + 1, Len(q)), k |-> tree[q].k, c |-> tree[q].c] : q \in {q \in DOMAIN tree : IsPrefix(p, q) /\ q # p}}
\* where a key of the store leads, and whether it may be followed
Lex(root, cs) == Norm(root, cs)
Allowed(tree, root, cs) == Lex(root, cs) # Out /\ Within(root, Lex(root, cs)) /\ Phys(tree, Lex(root, cs)) # Out /\ (Phys(tree, Lex(root, cs)) = Loop \/ Within(Phys(tree, root), Phys(tree, Lex(root, cs))))
=============================================================================
