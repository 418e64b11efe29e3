----------------------------- MODULE Trace_Tensor -----------------------------
EXTENDS TensorOps, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l
Tr == Traces[tid]
Init == tid \in 1 .. Len(Traces) /\ l = 1
\* a run: results of the returned values and the arguments as they are afterwards
Good(r) == LET env == Run(Tr.ops, r.ins, 1) IN
           /\ r.after = r.ins
           /\ Len(r.outs) = Len(Tr.outs)
           /\ \A k \in 1 .. Len(Tr.outs) : r.outs[k] = env[Tr.outs[k]]
Next == l <= Len(Tr.runs) /\ Good(Tr.runs[l]) /\ l' = l + 1 /\ UNCHANGED tid
TraceSpec == Init /\ [][Next]_<<tid, l>>
Accept == /\ (l = Len(Tr.runs) + 1) => PrintT("@" \o ToJson([acc |-> tid]))
          /\ (IOEnv.TRACE_DIAG = "1") => PrintT("@" \o ToJson([at |-> l]))
=============================================================================
