-------------------------- MODULE Trace_Collectives -------------------------
EXTENDS Collectives, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l
tvars == <<vars, tid, l>>
Ev == Traces[tid].ev
E == Ev[l]
Init == /\ tid \in 1 .. Len(Traces) /\ l = 1 /\ plan = Traces[tid].plan
        /\ pos = [p \in 0 .. Traces[tid].world - 1 |-> 0] /\ last = [p \in 0 .. Traces[tid].world - 1 |-> 0]
        /\ ran = [p \in 0 .. Traces[tid].world - 1 |-> {}]
Adv == l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tid
Next == \/ Adv /\ E.e = "enter" /\ Enter(E.p) /\ pos'[E.p] = E.c
        \/ Adv /\ E.e = "leave" /\ pos[E.p] = E.c /\ Leave(E.p, E.r)
        \/ Adv /\ E.e = "branch" /\ pos[E.p] = E.c /\ Branch(E.p, E.v)
        \/ Adv /\ E.e = "wire" /\ Wire(E.p, E.q)
        \/ Adv /\ E.e = "end" /\ Done /\ E.left = 0 /\ UNCHANGED vars
TraceSpec == Init /\ [][Next]_tvars
Accept == /\ (l = Len(Ev) + 1) => PrintT("@" \o ToJson([acc |-> tid]))
          /\ (IOEnv.TRACE_DIAG = "1") => PrintT("@" \o ToJson([at |-> l]))
=============================================================================
