--------------------------- MODULE Trace_StorePaths ---------------------------
(* Recorded operations of a real store on a real tree. T.root, T.cwd: paths;  *)
(* T.tree: the tree before; T.val[c]: the object that content c is, 0: none.  *)
(* Events: op (put, get, del, exists, upload, download, list, touch), cs: the  *)
(* components of the key, abs: it is an absolute path (cs from the top),      *)
(* loc: the local path (source or destination), v: the object, f: something   *)
(* failed underneath, s: "ok", "no" or "missing", got, tree: the tree after.  *)
EXTENDS StorePaths, Integers, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, tree, val
tv == <<tid, l, tree, val>>
T == Traces[tid]
E == T.ev[l]
Tree(s) == [p \in {s[i].p : i \in 1 .. Len(s)} |-> LET x == s[CHOOSE i \in 1 .. Len(s) : s[i].p = p] IN [k |-> x.k, c |-> x.c, t |-> x.t]]
Init == tid \in 1 .. Len(Traces) /\ l = 1 /\ tree = Tree(T.tree) /\ val = [c \in 1 .. T.contents |-> T.val[c]]
New == Tree(E.tree)
Target == IF E.abs THEN Norm(<<>>, E.cs) ELSE Lex(T.root, E.cs)
May == E.abs \/ Allowed(tree, T.root, E.cs)
Unchanged == New = tree
\* only directories on the way to the target were made
AlmostUnchanged == Same(tree, New, {}, IF May /\ Target # Out THEN {Target, Phys(tree, Target)} ELSE {})
Refused == E.s # "ok" /\ AlmostUnchanged
\* the entry itself: the links of its parents followed, itself not
Entry(p) == IF p = <<>> THEN <<>> ELSE LET q == Phys(tree, Front(p)) IN IF q \in {Out, Loop} THEN Out ELSE Append(q, p[Len(p)])
Hit == {Target, Phys(tree, Target), Entry(Target)} \ {Out, Loop, <<>>}
\* a parent that leads nowhere cannot be made a directory
Astray == \E i \in 1 .. Len(Target) - 1 : Kind(tree, Phys(tree, SubSeq(Target, 1, i))) = "none" /\ \E j \in 1 .. i : Kind(tree, Entry(SubSeq(Target, 1, j))) = "l"
Crowded == Found(tree, Target) = "d" \/ Blocked(tree, Target) \/ Phys(tree, Target) \in {Out, Loop} \/ Astray
DoPut == IF ~May \/ Target = Out THEN Refused /\ UNCHANGED val
         ELSE \/ /\ E.s = "ok" /\ Same(tree, New, Hit, {}) /\ Found(New, Target) = "f"
                 /\ LET c == Content(New, Target) IN val[c] \in {0, E.v} /\ val' = [val EXCEPT ![c] = E.v]
              \/ (Crowded \/ E.f) /\ Refused /\ UNCHANGED val
DoGet == /\ Unchanged /\ UNCHANGED val
         /\ IF May /\ Target # Out /\ Content(tree, Target) # 0
            THEN IF val[Content(tree, Target)] = 0 THEN E.s # "ok" ELSE E.s = "ok" /\ E.got = val[Content(tree, Target)]
            ELSE E.s # "ok"
DoDel == /\ UNCHANGED val
         /\ IF May /\ Target # Out /\ Found(tree, Target) = "f" THEN E.s = "ok" /\ New = Gone(tree, {Entry(Target)})
            ELSE Unchanged
DoExists == /\ Unchanged /\ UNCHANGED val
            /\ IF May /\ Target # Out THEN (E.s = "ok" /\ E.got = (IF Found(tree, Target) = "f" THEN 1 ELSE 0)) \/ (Phys(tree, Target) \in {Out, Loop} /\ E.got # 1)
               ELSE E.s # "ok" \/ E.got = 0
\* the source of a download: in the store, else (not found) in the working directory
Src == IF E.abs \/ Found(tree, Target) # "none" THEN Target ELSE Norm(T.cwd, E.cs)
DoDownload ==
  /\ UNCHANGED val
  /\ IF ~May \/ Target = Out \/ Src = Out \/ Found(tree, Src) \in {"none", "l"} \/ (Kind(tree, Entry(E.loc)) = "d" /\ Src # E.loc) \/ Blocked(tree, E.loc)
     THEN E.s # "ok" /\ Same(tree, New, {}, {E.loc})
     ELSE \/ /\ E.s = "ok" /\ Same(tree, New, {E.loc, Entry(E.loc)}, {}) /\ Found(New, E.loc) = Found(tree, Src)
             /\ IF Found(tree, Src) = "f" THEN Content(New, E.loc) = Content(tree, Src)
                ELSE Phys(New, E.loc) = Phys(tree, Src) \/ Subtree(New, Phys(New, E.loc)) = Subtree(tree, Phys(tree, Src))
          \/ E.f /\ E.s # "ok" /\ Same(tree, New, {E.loc}, {})
There == Kind(tree, Entry(Target)) # "none"
DoUpload ==
  /\ UNCHANGED val
  /\ LET k == Found(tree, E.loc)
         c == Content(tree, E.loc)
         after == Phys(New, Target)
     IN IF ~May \/ Target = Out \/ Entry(Target) = Out \/ k \in {"none", "l"} \/ (Phys(tree, Target) \in {Out, Loop} /\ There) \/ (Entry(E.loc) # Entry(Target) /\ Phys(tree, E.loc) # Target /\ IsPrefix(Phys(tree, E.loc), Target)) THEN Refused
        ELSE IF Entry(E.loc) = Entry(Target) THEN E.s = "ok" /\ Unchanged
        ELSE IF There \/ Blocked(tree, Target)
        THEN IF k = "f" /\ Content(tree, Target) = c
             THEN \/ E.s = "ok" /\ Same(tree, New, {E.loc, Entry(E.loc)} \cup Hit, {}) /\ Content(New, Target) = c
                     /\ (Phys(tree, Target) \notin {E.loc, Entry(E.loc), Phys(tree, E.loc)} => Has(New, Phys(tree, Target)) /\ New[Phys(tree, Target)] = tree[Phys(tree, Target)])
                  \/ E.f /\ E.s # "ok" /\ AlmostUnchanged
             ELSE Refused \/ (k = "d" /\ Phys(tree, Target) = Phys(tree, E.loc))
        ELSE \/ /\ E.s = "ok" \/ E.f            \* the source may be left over when removing it fails
                /\ Same(tree, New, {Target, Entry(Target), E.loc, Entry(E.loc)}, {})
                /\ E.s = "ok" => ~Has(New, Entry(E.loc))
                /\ Kind(New, Entry(Target)) = k
                /\ IF k = "f" THEN Content(New, Target) = c ELSE Subtree(New, Entry(Target)) = Subtree(tree, Phys(tree, E.loc))
                /\ (Phys(tree, E.loc) # Entry(E.loc) => Subtree(New, Phys(tree, E.loc)) = Subtree(tree, Phys(tree, E.loc)))
             \/ (E.f \/ Astray) /\ Refused
Step ==
  /\ l <= Len(T.ev) /\ l' = l + 1 /\ UNCHANGED tid /\ tree' = New
  /\ CASE E.op = "put" -> DoPut [] E.op = "get" -> DoGet [] E.op = "del" -> DoDel [] E.op = "exists" -> DoExists
       [] E.op = "upload" -> DoUpload [] E.op = "download" -> DoDownload
       [] E.op = "touch" -> UNCHANGED val
TraceSpec == Init /\ [][Step]_tv
Accept == /\ (l = Len(T.ev) + 1) => PrintT("@" \o ToJson([acc |-> tid]))
          /\ (IOEnv.TRACE_DIAG = "1") => PrintT("@" \o ToJson([at |-> l]))
=============================================================================
