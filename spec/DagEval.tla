------------------------------- MODULE DagEval -------------------------------
(***************************************************************************)
(* Evaluation of one program graph (properties C14, C15).                  *)
(* prog: [nin, ops: seq of [ins: seq of value index, nout], outs].         *)
(* Values are numbered 1..: inputs first, then operation outputs in order. *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
VARIABLES prog, val, st, over
dvars == <<prog, val, st, over>>
Ops == 1 .. Len(prog.ops)
None == [k |-> "none"]
Some(v) == [k |-> "val", v |-> v]
RECURSIVE FirstOut(_)
FirstOut(i) == IF i = 1 THEN prog.nin + 1 ELSE FirstOut(i - 1) + prog.ops[i - 1].nout
NumVals(p) == LET RECURSIVE C(_)
                  C(i) == IF i = 0 THEN p.nin ELSE C(i - 1) + p.ops[i].nout
              IN C(Len(p.ops))
InitVal(p, inputs) == [v \in 1 .. NumVals(p) |-> IF v <= p.nin THEN Some(inputs[v]) ELSE None]
DInit(p, inputs) == prog = p /\ val = InitVal(p, inputs) /\ st = [i \in 1 .. Len(p.ops) |-> "todo"] /\ over = "no"
Ready(i) == \A k \in 1 .. Len(prog.ops[i].ins) : val[prog.ops[i].ins[k]].k = "val"
Args(i) == [k \in 1 .. Len(prog.ops[i].ins) |-> val[prog.ops[i].ins[k]].v]
\* an operation starts once, with the values its inputs name
Start(i, args) == /\ over \in {"no", "raised"}
                  /\ st[i] = "todo" /\ Ready(i) /\ args = Args(i)
                  /\ st' = [st EXCEPT ![i] = "run"] /\ UNCHANGED <<prog, val, over>>
End(i, outs) == /\ st[i] = "run" /\ Len(outs) = prog.ops[i].nout
                /\ st' = [st EXCEPT ![i] = "done"]
                /\ val' = [v \in DOMAIN val |-> IF v >= FirstOut(i) /\ v < FirstOut(i) + Len(outs) THEN Some(outs[v - FirstOut(i) + 1]) ELSE val[v]]
                /\ UNCHANGED <<prog, over>>
Fail(i) == st[i] = "run" /\ st' = [st EXCEPT ![i] = "failed"] /\ UNCHANGED <<prog, val, over>>
\* the operation returned a wrong number of results
BadEnd(i) == st[i] = "run" /\ st' = [st EXCEPT ![i] = "bad"] /\ UNCHANGED <<prog, val, over>>
\* a result is returned only when every operation has finished
Return(outs) == /\ over = "no" /\ \A i \in Ops : st[i] = "done"
                /\ Len(outs) = Len(prog.outs) /\ \A k \in 1 .. Len(outs) : val[prog.outs[k]] = Some(outs[k])
                /\ over' = "returned" /\ UNCHANGED <<prog, val, st>>
\* an error is reported only if an operation raised it
Raise(i) == over = "no" /\ st[i] = "failed" /\ over' = "raised" /\ UNCHANGED <<prog, val, st>>
\* an error the operation did not raise itself
RaiseOther == /\ over = "no"
              /\ \E i \in Ops : st[i] = "bad" \/ (prog.ops[i].noimpl /\ st[i] = "todo" /\ Ready(i))
              /\ over' = "raised" /\ UNCHANGED <<prog, val, st>>
=============================================================================
