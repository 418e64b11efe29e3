------------------------------ MODULE Tracing --------------------------------
(***************************************************************************)
(* Meaning of a functional program and of the flat program traced from it. *)
(*                                                                         *)
(* A program is a sequence of functions; function 1 is the entry.  Every   *)
(* function has np parameters and ncap captured variables; its variables   *)
(* are numbered parameters first, then captures, then statement results.   *)
(*   [k |-> "op", uid, ins, nout, c]   an operation with constant c        *)
(*   [k |-> "call", f, ins, caps]      call of function f, whose captured  *)
(*                                     variables are caps of the caller    *)
(* A result is a sequence of leaves [path, k, v]: k = "v" a variable,      *)
(* k = "c" a constant.  Only the entry has captures from outside the       *)
(* program: the outer values.                                              *)
(*                                                                         *)
(* Direct meaning:  Eval  (call the function on values).                   *)
(* Traced program:  TraceOf (one graph with an input per parameter         *)
(* position and per used outer value, calls kept as nested graphs whose    *)
(* extra inputs are the values they capture), evaluated by EvalGraph.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
P == 9973
Take(s, ix) == [k \in 1 .. Len(ix) |-> s[ix[k]]]
RECURSIVE Weighted(_, _)
Weighted(a, n) == IF n = 0 THEN 0 ELSE (n * 3 * a[n]) + Weighted(a, n - 1)
Prim(uid, c, j, a) == (uid * 131 + c * 29 + j * 17 + Weighted(a, Len(a)) + 7) % P
PrimOuts(s, env) == [j \in 1 .. s.nout |-> Prim(s.uid, s.c, j - 1, Take(env, s.ins))]
VarLeaves(f) == SelectSeq(f.res, LAMBDA x : x.k = "v")
\* --- direct evaluation ----------------------------------------------------
RECURSIVE Body(_, _, _, _)
\* result of executing statements i.. of function f: variables and operations executed
Body(fns, f, env, i) ==
  IF i > Len(fns[f].body) THEN [env |-> env, log |-> <<>>]
  ELSE LET s == fns[f].body[i] IN
       IF s.k = "op"
       THEN LET r == Body(fns, f, env \o PrimOuts(s, env), i + 1) IN [r EXCEPT !.log = <<s.uid>> \o @]
       ELSE LET sub == Body(fns, s.f, Take(env, s.ins) \o Take(env, s.caps), 1)
                outs == [k \in 1 .. Len(VarLeaves(fns[s.f])) |-> sub.env[VarLeaves(fns[s.f])[k].v]]
                r == Body(fns, f, env \o outs, i + 1)
            IN [r EXCEPT !.log = sub.log \o @]
Leaf(x, env) == [path |-> x.path, k |-> x.k, v |-> IF x.k = "v" THEN env[x.v] ELSE x.v]
Eval(fns, params, outers) ==
  LET b == Body(fns, 1, params \o outers, 1)
  IN [res |-> [k \in 1 .. Len(fns[1].res) |-> Leaf(fns[1].res[k], b.env)], log |-> b.log]
Count(s, x) == Cardinality({i \in 1 .. Len(s) : s[i] = x})
SameBag(s, t) == /\ Len(s) = Len(t)
                 /\ \A i \in 1 .. Len(s) : Count(s, s[i]) = Count(t, s[i])
\* --- what a function uses of its captures ------------------------------------
RECURSIVE UsedFrom(_, _, _)
Range(s) == {s[k] : k \in 1 .. Len(s)}
UsedFrom(fns, f, i) ==
  IF i > Len(fns[f].body) THEN {VarLeaves(fns[f])[k].v : k \in 1 .. Len(VarLeaves(fns[f]))}
  ELSE LET s == fns[f].body[i] IN
       UsedFrom(fns, f, i + 1) \cup Range(s.ins) \cup
       (IF s.k = "call" THEN {s.caps[c - fns[s.f].np] : c \in UsedFrom(fns, s.f, 1) \cap (fns[s.f].np + 1 .. fns[s.f].np + fns[s.f].ncap)} ELSE {})
UsedCaps(fns, f) == UsedFrom(fns, f, 1) \cap (fns[f].np + 1 .. fns[f].np + fns[f].ncap)
\* --- the traced program --------------------------------------------------------
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Asc(S \ {m})
\* graph of function f: inputs are its parameters, then the captures it uses
\* (in any fixed order); values are renumbered accordingly
RECURSIVE GraphOf(_, _)
GraphOf(fns, f) ==
  LET used == Asc(UsedCaps(fns, f))
      np == fns[f].np
      nc == fns[f].ncap
      Pos(v) == CHOOSE k \in 1 .. Len(used) : used[k] = v
      Ren(v) == IF v <= np THEN v ELSE IF v <= np + nc THEN np + Pos(v) ELSE v - nc + Len(used)
      RenSeq(s) == [k \in 1 .. Len(s) |-> Ren(s[k])]
      Stmt(s) == IF s.k = "op" THEN [s EXCEPT !.ins = RenSeq(@)]
                 ELSE LET g == GraphOf(fns, s.f)
                      IN [k |-> "region", g |-> g, ins |-> RenSeq(s.ins) \o RenSeq(Take(s.caps, [q \in 1 .. Len(g.caps) |-> g.caps[q] - fns[s.f].np]))]
  IN [nin |-> np + Len(used), caps |-> used, ops |-> [i \in 1 .. Len(fns[f].body) |-> Stmt(fns[f].body[i])],
      outs |-> [k \in 1 .. Len(VarLeaves(fns[f])) |-> Ren(VarLeaves(fns[f])[k].v)]]
RECURSIVE RunGraph(_, _, _)
RunGraph(g, env, i) ==
  IF i > Len(g.ops) THEN [outs |-> Take(env, g.outs), log |-> <<>>]
  ELSE LET o == g.ops[i] IN
       IF o.k = "op"
       THEN LET r == RunGraph(g, env \o PrimOuts(o, env), i + 1) IN [r EXCEPT !.log = <<o.uid>> \o @]
       ELSE LET sub == RunGraph(o.g, Take(env, o.ins), 1)
                r == RunGraph(g, env \o sub.outs, i + 1)
            IN [r EXCEPT !.log = sub.log \o @]
\* re-packing: the outputs fill the variable leaves, constants stay
Repack(fns, outs) ==
  LET r == fns[1].res
      VarsBefore(k) == Cardinality({j \in 1 .. k : r[j].k = "v"})
  IN [k \in 1 .. Len(r) |-> [path |-> r[k].path, k |-> r[k].k, v |-> IF r[k].k = "v" THEN outs[VarsBefore(k)] ELSE r[k].v]]
EvalTraced(fns, params, outers) ==
  LET g == GraphOf(fns, 1)
      r == RunGraph(g, params \o [q \in 1 .. Len(g.caps) |-> outers[g.caps[q] - fns[1].np]], 1)
  IN [res |-> Repack(fns, r.outs), log |-> r.log, nin |-> g.nin]
=============================================================================
