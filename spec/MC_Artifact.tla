----------------------------- MODULE MC_Artifact -----------------------------
EXTENDS Artifact
CONSTANTS MaxAlter, Bug
VARIABLES src, prog, art, ran, alters, st
vars == <<src, prog, art, ran, alters, st>>
PS == {<<>>, <<0>>, <<1>>}
Flat == [code : {"a", "b"}, ps : PS, sub : {<<>>}]
Ops == Flat \cup [code : {"a", "c"}, ps : {<<>>, <<1>>}, sub : {<<o>> : o \in Flat}]
OpSeqs == {<<>>} \cup {<<o>> : o \in Ops} \cup {<<o, p>> : o \in {x \in Flat : x.code = "a"}, p \in {x \in Flat : x.code = "b"}}
Graphs == [ins : 0 .. 1, outs : {1}, ops : OpSeqs]
NoGraph == [ins |-> 9, outs |-> 9, ops |-> <<>>]
Sources == [graph : Graphs, captures : BOOLEAN, constants : BOOLEAN, writable : BOOLEAN]
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Sorted(S \ {x})
Flatten(ops) == IF Bug = "NoRegions" THEN [k \in 1 .. Len(ops) |-> [ops[k] EXCEPT !.sub = <<>>]] ELSE ops
Count(ops) == IF Bug = "Largest" /\ Parties(Flatten(ops)) # {} THEN Needed(ops) - 1 ELSE Needed(Flatten(ops))
Nothing == [graph |-> NoGraph, f |-> [schema |-> 0, kind |-> 0, ins |-> 0, outs |-> 0, codes |-> <<>>, world |-> 0], digest |-> NoGraph]
Init == /\ src \in Sources /\ prog = Nothing /\ art = Nothing /\ ran = <<>> /\ alters = 0 /\ st = "source"
Compile == /\ st = "source"
           /\ IF Storable(src) \/ (Bug = "AcceptCaptures" /\ src.captures /\ src.writable)
              THEN /\ LET g == src.graph IN prog' = [graph |-> g, digest |-> g, f |-> [schema |-> 1, kind |-> 1, ins |-> g.ins, outs |-> g.outs, codes |-> Sorted(Codes(Flatten(g.ops))), world |-> Count(g.ops)]]
                   /\ st' = "packed" /\ art' = prog'
              ELSE st' = "refused" /\ UNCHANGED <<prog, art>>
           /\ UNCHANGED <<src, ran, alters>>
Alter == /\ st = "packed" /\ alters < MaxAlter /\ alters' = alters + 1
         /\ \/ \E g \in Graphs : art' = [art EXCEPT !.graph = g]
            \/ \E g \in {NoGraph, src.graph} : art' = [art EXCEPT !.digest = g]
            \/ \E n \in 0 .. 1 : art' = [art EXCEPT !.f.ins = n]
            \/ \E n \in 0 .. 2 : art' = [art EXCEPT !.f.outs = n]
            \/ \E n \in 0 .. 2 : art' = [art EXCEPT !.f.schema = n]
            \/ \E n \in 0 .. 1 : art' = [art EXCEPT !.f.kind = n]
            \/ \E n \in -1 .. 3 : art' = [art EXCEPT !.f.world = n]
            \/ \E c \in {<<>>, <<"a">>, <<"b">>, <<"a", "b">>, <<"a", "a">>, <<"a", "c">>} : art' = [art EXCEPT !.f.codes = c]
         /\ UNCHANGED <<src, prog, ran, st>>
Good == LET d == art.digest = NoGraph \/ art.digest = art.graph IN
        IF Bug = "NoDigest" THEN Consistent(art.f, art.graph.ins, art.graph.outs, art.graph.ops, TRUE)
        ELSE IF Bug = "SomeCodes" THEN Consistent([art.f EXCEPT !.codes = IF Range(@) \subseteq Codes(art.graph.ops) THEN Sorted(Codes(art.graph.ops)) ELSE @], art.graph.ins, art.graph.outs, art.graph.ops, d)
        ELSE IF Bug = "NoSchema" THEN Consistent([art.f EXCEPT !.schema = 1], art.graph.ins, art.graph.outs, art.graph.ops, d)
        ELSE IF Bug = "NoRegions" THEN Consistent(art.f, art.graph.ins, art.graph.outs, Flatten(art.graph.ops), d)
        ELSE IF Bug = "AtMost" THEN Consistent([art.f EXCEPT !.world = IF @ >= Needed(art.graph.ops) THEN Needed(art.graph.ops) ELSE @], art.graph.ins, art.graph.outs, art.graph.ops, d)
        ELSE Consistent(art.f, art.graph.ins, art.graph.outs, art.graph.ops, d)
Unpack == /\ st = "packed" /\ st' = IF Good THEN "loaded" ELSE "rejected"
          /\ UNCHANGED <<src, prog, art, ran, alters>>
Run == /\ st = "loaded" /\ \E n \in 0 .. 2, kw \in BOOLEAN, w \in 0 .. 2 :
          /\ ran' = IF Runnable(art.f, art.graph.ops, n, kw, w) \/ (Bug = "AnyCluster" /\ Runnable(art.f, art.graph.ops, n, kw, 9)) \/ (Bug = "AnyArguments" /\ Runnable(art.f, art.graph.ops, art.f.ins, FALSE, w))
                    THEN <<[graph |-> art.graph, n |-> n, kw |-> kw, w |-> w]>> ELSE <<>>
          /\ st' = "ran"
       /\ UNCHANGED <<src, prog, art, alters>>
Next == Compile \/ Alter \/ Unpack \/ Run
Spec == Init /\ [][Next]_vars
Stated == art.f.world # -1
\* a compiled program can be read back and runs
Faithful == /\ (st = "rejected" => art # prog)
            /\ (st = "refused" => ~Storable(src)) /\ (st \in {"packed", "loaded", "ran"} => Storable(src))
            /\ (prog # Nothing => prog.graph = src.graph /\ prog.f.world = Needed(src.graph.ops) /\ Range(prog.f.codes) = Codes(src.graph.ops))
\* what runs is what was compiled, unless there is no digest to tell; a single
\* alteration of the graph, the signature or the codes never passes
Intact == (ran # <<>> /\ art.digest # NoGraph) => ran[1].graph = art.digest
OneAlteration == (st \in {"loaded", "ran"} /\ alters = 1) => art.graph = prog.graph /\ art.f.ins = prog.f.ins /\ art.f.outs = prog.f.outs /\ Range(art.f.codes) = Range(prog.f.codes) /\ art.f.schema = 1 /\ art.f.world \in {-1, prog.f.world} /\ art.digest \in {NoGraph, prog.digest}
Fits == ran # <<>> => ran[1].n = ran[1].graph.ins /\ ~ran[1].kw /\ (Stated => ran[1].w >= Needed(ran[1].graph.ops))
Spent == (st = "ran" /\ alters = 0 /\ ran = <<>>) => TRUE
=============================================================================
