----------------------------- MODULE MC_StorePaths -----------------------------
(* The store's root r beside a sibling rx and a file o; inside it a, a link l *)
(* and what operations make. Keys over a few components.                      *)
EXTENDS StorePaths, TLC
CONSTANTS MaxSteps, MaxLen, Bug
Names == {"a", "l", "..", "r", "rx", "o", "s"}
Keys == UNION {[1 .. n -> Names] : n \in 1 .. MaxLen}
Root == <<"r">>
F(c) == [k |-> "f", c |-> c, t |-> <<>>]
D == [k |-> "d", c |-> 0, t |-> <<>>]
L(p) == [k |-> "l", c |-> 0, t |-> p]
Base == (<<"r">> :> D) @@ (<<"rx">> :> D) @@ (<<"rx", "a">> :> F(1)) @@ (<<"o">> :> F(2)) @@ (<<"s">> :> F(3))
Trees == {Base @@ x @@ y : x \in {<<>>, <<"r", "a">> :> F(4), <<"r", "a">> :> D},
                           y \in {<<"r", "l">> :> L(t) : t \in {<<"o">>, <<"rx">>, <<"r", "a">>, <<"r">>, <<"r", "l">>, <<>>}} \cup {<<>>}}
VARIABLES tree, n, ans, src
vars == <<tree, n, ans, src>>
Init == tree \in Trees /\ n = 0 /\ ans = [op |-> "none", ok |-> TRUE, ph |-> Root, before |-> tree, key |-> <<>>] /\ src \in {F(3), F(4), L(<<"o">>)}
\* names that start with the same letters
Alike(a, b) == a = b \/ (Bug = "Prefix" /\ a = "r" /\ b = "rx")
Inside(p) == p \notin {Out, Loop} /\ Len(p) >= 1 /\ Alike("r", p[1])
Resolved(key) == IF Bug = "LinksOnly" THEN Inside(Phys(tree, Norm(Root, key)))
                 ELSE IF Bug = "NoLinks" THEN Inside(Norm(Root, key))
                 ELSE Inside(Norm(Root, key)) /\ Inside(Phys(tree, Norm(Root, key)))
Say(op, ok, key) == ans' = [op |-> op, ok |-> ok, ph |-> Phys(tree, Norm(Root, key)), before |-> tree, key |-> key]
Put(key, c) == LET p == Norm(Root, key)
                   q == Phys(tree, p)
                   ok == Resolved(key) /\ q \notin {Out, Loop} /\ Kind(tree, q) # "d" /\ ~Blocked(tree, p)
               IN /\ Say("put", ok, key)
                  /\ tree' = IF ok THEN (q :> F(c)) @@ tree ELSE tree
Get(key) == Say("get", Resolved(key) /\ Found(tree, Norm(Root, key)) = "f", key) /\ UNCHANGED tree
Delete(key) == LET p == Norm(Root, key)
                   ok == Resolved(key) /\ Found(tree, p) = "f"
                   \* the parent's links are followed, the last one not
                   q == IF p = <<>> \/ p = Out THEN Out ELSE Append(Phys(tree, Front(p)), p[Len(p)])
               IN Say("del", ok, key) /\ tree' = IF ok THEN Gone(tree, {q}) ELSE tree
Upload(key) == LET p == Norm(Root, key)
                   q == Phys(tree, p)
                   real == [tree EXCEPT ![<<"s">>] = src]
                   c == Content(real, <<"s">>)
                   there == Has(tree, p) \/ (q \notin {Out, Loop} /\ Has(tree, q))
                   ok == Resolved(key) /\ q \notin {Out, Loop} /\ q # <<>> /\ ~Blocked(tree, p) /\ (there => Content(tree, p) = c)
               IN /\ Say("upload", ok \/ (Bug = "Overwrite" /\ Resolved(key)), key)
                  /\ tree' = IF ok \/ (Bug = "Overwrite" /\ Resolved(key)) THEN (q :> (IF Bug = "StoreLink" THEN src ELSE F(c))) @@ tree
                             ELSE IF Bug = "Partial" /\ Resolved(key) /\ q \notin {Out, Loop} /\ ~there THEN (q :> F(9)) @@ tree ELSE tree
Next == /\ n < MaxSteps /\ n' = n + 1 /\ UNCHANGED src
        /\ \E key \in Keys : Put(key, 5) \/ Get(key) \/ Delete(key) \/ Upload(key)
Spec == Init /\ [][Next]_vars
Outside(t) == [p \in {p \in DOMAIN t : ~Within(Root, p)} |-> t[p]]
Contained == Outside(tree) = Outside(ans.before)
\* what was answered came from inside
ReadInside == ans.op = "get" /\ ans.ok => ans.ph # Out /\ Within(Root, ans.ph)
NotReplaced == ans.op = "upload" => \A p \in DOMAIN ans.before : ans.before[p].k = "f" => p \in DOMAIN tree /\ tree[p] = ans.before[p]
\* no new way out: links are only those that were there
NoNewLinks == \A p \in DOMAIN tree : tree[p].k = "l" => p \in DOMAIN ans.before /\ ans.before[p] = tree[p]
Whole == \A p \in DOMAIN tree : tree[p].k = "f" => tree[p].c # 9
=============================================================================
