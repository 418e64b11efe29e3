---------------------------- MODULE Trace_DagEval ----------------------------
EXTENDS DagEval, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l
tvars == <<dvars, tid, l>>
Tr == Traces[tid]
Ev == Tr.ev
E == Ev[l]
Init == tid \in 1 .. Len(Traces) /\ l = 1 /\ DInit([nin |-> Traces[tid].nin, ops |-> Traces[tid].ops, outs |-> Traces[tid].outs], Traces[tid].inputs)
Step == CASE E.e = "start" -> Start(E.op, E.args)
          [] E.e = "end" -> End(E.op, E.outs)
          [] E.e = "fail" -> Fail(E.op)
          [] E.e = "ret" -> Return(E.outs)
          [] E.e = "badend" -> BadEnd(E.op)
          [] E.e = "raise" -> IF E.op \in Ops THEN Raise(E.op) ELSE RaiseOther
          [] OTHER -> FALSE
Next == l <= Len(Ev) /\ Step /\ l' = l + 1 /\ UNCHANGED tid
TraceSpec == Init /\ [][Next]_tvars
Accept == /\ (l = Len(Ev) + 1 /\ over # "no") => PrintT("@" \o ToJson([acc |-> tid]))
          /\ (IOEnv.TRACE_DIAG = "1") => PrintT("@" \o ToJson([at |-> l]))
=============================================================================
