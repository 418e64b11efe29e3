----------------------------- MODULE Trace_Comm -----------------------------
(* Is a recorded execution of the real communicators a behaviour of Comm?   *)
EXTENDS Comm, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l
tvars == <<vars, tid, l>>
Tr == Traces[tid]
Ev == Tr.ev
E == Ev[l]
Thr == 1 .. Tr.nthreads
Init ==
  /\ tid \in 1 .. Len(Traces)
  /\ l = 1 /\ box = {} /\ shut = {} /\ clock = 0
  /\ ops = [t \in 1 .. Traces[tid].nthreads |-> NoOp]
  /\ stats = [r \in 0 .. (Traces[tid].ranks - 1) |-> Zero]
More == l <= Len(Ev)
\* Advance the clock to the time of the next event (time passes silently).
AtTime == E.at > clock
Tick == /\ More /\ AtTime /\ clock' = E.at /\ UNCHANGED <<box, shut, ops, stats, tid, l>>
EvCall ==
  /\ More /\ ~AtTime /\ E.e = "call"
  /\ Call(E.t, E.o @@ [out |-> -1, eps |-> Tr.eps])
  /\ l' = l + 1 /\ UNCHANGED tid
OnTime(o) == IF Tr.slow THEN TRUE ELSE IF o.op \notin {"send", "recv"} THEN TRUE
             ELSE IF (IF o.op = "send" THEN o.async ELSE FALSE) THEN TRUE
             ELSE IF o.res # "timeout" THEN TRUE ELSE clock <= o.t0 + o.tmo + Tr.late
EvRet ==
  /\ More /\ ~AtTime /\ E.e = "ret"
  /\ Active(E.t) /\ ops[E.t].res = E.r
  /\ E.r \in {"val", "stats"} => ops[E.t].out = E.v
  /\ OnTime(ops[E.t])
  /\ Return(E.t)
  /\ l' = l + 1 /\ UNCHANGED tid
EvPosted ==
  /\ More /\ ~AtTime /\ E.e = "posted" /\ Posted(E.t) /\ l' = l + 1 /\ UNCHANGED tid
EvQuiesce ==
  /\ More /\ ~AtTime /\ E.e = "quiesce"
  /\ \A t \in Thr : Active(t) =>
                                  \/ MayBlock(t)
                                  \/ (ops[t].op = "send" /\ ops[t].async /\ ops[t].st = "counted")
  /\ l' = l + 1 /\ UNCHANGED <<vars, tid>>
Silent == More /\ (\E t \in Thr : Internal(t)) /\ UNCHANGED <<tid, l>>
Next == Tick \/ EvCall \/ EvPosted \/ EvRet \/ EvQuiesce \/ Silent
TraceSpec == Init /\ [][Next]_tvars
Accept == /\ (l = Len(Ev) + 1) => PrintT("@" \o ToJson([acc |-> tid]))
          /\ (IOEnv.TRACE_DIAG = "1") => PrintT("@" \o ToJson([at |-> l]))
Safe == OnePerKey
=============================================================================
