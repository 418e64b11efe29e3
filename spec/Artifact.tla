------------------------------ MODULE Artifact ------------------------------
(* Program artifacts (mplang/tool/program.py, mplang/edsl/program.py,         *)
(* mplang.evaluate). A source is compiled, the program packed; what is packed *)
(* may be altered; it is unpacked and executed with some arguments on a       *)
(* cluster of some size. A graph is [ins, outs, ops]; an operation has a code, *)
(* the parties it names and nested operations. The digest of a graph is       *)
(* modelled as the graph itself, the absent one as NoGraph.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* ---------------------------------------------------- what the fields must say
RECURSIVE Codes(_), Parties(_)
Codes(ops) == UNION {{ops[k].code} \cup Codes(ops[k].sub) : k \in 1 .. Len(ops)}
Range(s) == {s[k] : k \in 1 .. Len(s)}
Parties(ops) == UNION {Range(ops[k].ps) \cup Parties(ops[k].sub) : k \in 1 .. Len(ops)}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Needed(ops) == IF Parties(ops) = {} THEN 0 ELSE Max(Parties(ops)) + 1
\* a source that can be stored: everything it uses is passed to it, everything
\* it returns is computed by it, and all settings can be written down
Storable(s) == ~s.captures /\ ~s.constants /\ s.writable
\* the checks of a program's fields f against its graph (ins inputs, outs outputs,
\* operations ops); d: the digest is that of the graph, or there is none
Consistent(f, ins, outs, ops, d) ==
  /\ f.schema = 1 /\ f.kind = 1
  /\ f.ins = ins /\ f.outs = outs
  /\ Range(f.codes) = Codes(ops) /\ Len(f.codes) = Cardinality(Codes(ops))
  /\ d
  /\ (f.world = -1 \/ f.world = Needed(ops))
\* a program runs with these arguments on this cluster
Runnable(f, ops, nargs, kwargs, size) == nargs = f.ins /\ ~kwargs /\ (f.world = -1 \/ f.world <= size)
=============================================================================
