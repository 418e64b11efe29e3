--------------------------- MODULE Trace_CommKeys ---------------------------
EXTENDS CommKeys, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l
tvars == <<kvars, tid, l>>
Ev == Traces[tid].ev
E == Ev[l]
Init == tid \in 1 .. Len(Traces) /\ l = 1 /\ cnt = [p \in 0 .. Traces[tid].parties - 1 |-> <<>>] /\ log = {}
Next == l <= Len(Ev) /\ Exchange(E.p, E.path, E.peer, E.dir, E.key) /\ l' = l + 1 /\ UNCHANGED tid
TraceSpec == Init /\ [][Next]_tvars
Accept == /\ (l = Len(Ev) + 1) => PrintT("@" \o ToJson([acc |-> tid]))
          /\ (IOEnv.TRACE_DIAG = "1") => PrintT("@" \o ToJson([at |-> l]))
=============================================================================
