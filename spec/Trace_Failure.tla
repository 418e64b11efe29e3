----------------------------- MODULE Trace_Failure -----------------------------
(* Recorded executions of requests: what every party did, what the caller got *)
(* and who is still waiting when nothing moves any more.                      *)
(* Events: op p | fail p | wait p | got p | broke p | ret (v = 0 ok, 1 error) *)
(* | end (v = number of parties still waiting).                               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, st, failed, caller, over
tv == <<tid, l, st, failed, caller, over>>
T == Traces[tid]
P == 0 .. T.world - 1
Init == tid \in 1 .. Len(Traces) /\ l = 1 /\ st = [p \in P |-> "run"] /\ failed = {} /\ caller = "wait" /\ over = FALSE
Step ==
  LET e == T.ev[l] p == e.p IN
  /\ l <= Len(T.ev) /\ l' = l + 1 /\ UNCHANGED tid /\ ~over
  /\ CASE e.e = "op" -> st[p] = "run" /\ UNCHANGED <<st, failed, caller, over>>
       [] e.e = "fail" -> /\ st[p] = "run" /\ st' = [st EXCEPT ![p] = "fail"] /\ failed' = failed \cup {p} /\ UNCHANGED <<caller, over>>
       [] e.e = "wait" -> st[p] = "run" /\ st' = [st EXCEPT ![p] = "wait"] /\ UNCHANGED <<failed, caller, over>>
       [] e.e = "got" -> st[p] = "wait" /\ st' = [st EXCEPT ![p] = "run"] /\ UNCHANGED <<failed, caller, over>>
       \* a wait ends with an error only because somebody failed; that party is done, too
       [] e.e = "broke" -> st[p] = "wait" /\ failed # {} /\ st' = [st EXCEPT ![p] = "fail"] /\ UNCHANGED <<failed, caller, over>>
       [] e.e = "ret" -> /\ caller = "wait" /\ caller' = (IF e.v = 0 THEN "ok" ELSE "error")
                         /\ IF e.v = 0 THEN failed = {} /\ \A q \in P : st[q] = "run" ELSE failed # {}
                         /\ UNCHANGED <<st, failed, over>>
       [] e.e = "end" -> /\ caller # "wait" /\ e.v = 0 /\ \A q \in P : st[q] # "wait"
                         /\ over' = TRUE /\ UNCHANGED <<st, failed, caller>>
TraceSpec == Init /\ [][Step]_tv
NoPartialResult == caller = "ok" => failed = {}
Accept == /\ (l > Len(T.ev) /\ over) => PrintT("@" \o ToJson([acc |-> tid]))
          /\ (IOEnv.TRACE_DIAG = "1") => PrintT("@" \o ToJson([at |-> l]))
=============================================================================
