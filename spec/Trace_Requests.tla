--------------------------- MODULE Trace_Requests ---------------------------
EXTENDS Requests, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l
tvars == <<vars, tid, l>>
Tr == Traces[tid]
Ev == Tr.ev
E == Ev[l]
Init == /\ tid \in 1 .. Len(Traces) /\ l = 1 /\ clock = 0 /\ ack = {}
        /\ fut = [i \in 1 .. Traces[tid].n |-> Pending]
        /\ ops = [t \in 1 .. Traces[tid].nthreads |-> NoOp]
More == l <= Len(Ev)
Tick == More /\ E.at > clock /\ clock' = E.at /\ UNCHANGED <<fut, ops, ack, tid, l>>
Now == More /\ E.at <= clock
EvCall == Now /\ E.e = "call" /\ Call(E.t, E.o) /\ l' = l + 1 /\ UNCHANGED tid
EvRet == Now /\ E.e = "ret" /\ Active(E.t) /\ ops[E.t].res = E.r /\ Return(E.t) /\ l' = l + 1 /\ UNCHANGED tid
EvQuiesce == /\ Now /\ E.e = "quiesce" /\ \A t \in DOMAIN ops : Active(t) => MayBlock(t)
             /\ l' = l + 1 /\ UNCHANGED <<vars, tid>>
Silent == More /\ (\E t \in DOMAIN ops : Internal(t)) /\ UNCHANGED <<tid, l>>
Next == Tick \/ EvCall \/ EvRet \/ EvQuiesce \/ Silent
TraceSpec == Init /\ [][Next]_tvars
Accept == /\ (l = Len(Ev) + 1) => PrintT("@" \o ToJson([acc |-> tid]))
          /\ (IOEnv.TRACE_DIAG = "1") => PrintT("@" \o ToJson([at |-> l]))
=============================================================================
