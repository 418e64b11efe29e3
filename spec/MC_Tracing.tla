----------------------------- MODULE MC_Tracing -------------------------------
(* For every small program: evaluating its traced program equals calling it. *)
EXTENDS Tracing
CONSTANTS NParams, NOuters, NInner, MaxRes
VARIABLES fns, done
Seqs(S, n) == UNION {[1 .. k -> S] : k \in 0 .. n}
Pairs(S) == {<<a, b>> : a \in S, b \in S}
\* inner function: one parameter, NInner captures, one operation, returns any leaves
InnerVars == 1 .. 1 + NInner
Inner == {[np |-> 1, ncap |-> NInner, body |-> <<[k |-> "op", uid |-> 9, ins |-> i, nout |-> 1, c |-> 2]>>, res |-> r] :
            i \in UNION {[1 .. k -> InnerVars] : k \in 0 .. 2},
            r \in {<<[path |-> "r", k |-> "v", v |-> a], [path |-> "s", k |-> b[1], v |-> b[2]]>> : a \in 1 .. 2 + NInner, b \in {<<"v", 1>>, <<"v", 2>>, <<"c", 5>>}}}
NI(f) == Len(VarLeaves(f))
Main(inner) ==
  LET v0 == NParams + NOuters
      o1 == {[k |-> "op", uid |-> 1, ins |-> i, nout |-> 1, c |-> 1] : i \in Pairs(1 .. v0)}
      c2 == {[k |-> "call", f |-> 2, ins |-> <<a>>, caps |-> cs] : a \in 1 .. v0 + 1, cs \in [1 .. NInner -> 1 .. v0 + 1]}
  IN {[np |-> NParams, ncap |-> NOuters, body |-> <<x, y, [k |-> "op", uid |-> 2, ins |-> <<v0 + 1, v0 + 2>>, nout |-> 2, c |-> 0]>>, res |-> r] :
       x \in o1, y \in c2, r \in {<<[path |-> "a", k |-> "v", v |-> m], [path |-> "b", k |-> "c", v |-> 3], [path |-> "c", k |-> "v", v |-> v0 + 2 + NI(inner)]>> : m \in 1 .. v0 + 2 + NI(inner)}}
Init == /\ done = FALSE
        /\ \E inner \in Inner : \E m \in Main(inner) : fns = <<m, inner>>
Next == ~done /\ done' = TRUE /\ UNCHANGED fns
Spec == Init /\ [][Next]_<<fns, done>>
Params == [i \in 1 .. NParams |-> 100 + i]
Outers == [i \in 1 .. NOuters |-> 200 + i]
Faithful == /\ Eval(fns, Params, Outers).res = EvalTraced(fns, Params, Outers).res
            /\ Eval(fns, Params, Outers).log = EvalTraced(fns, Params, Outers).log
=============================================================================
