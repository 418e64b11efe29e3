---------------------------- MODULE Trace_Tracing -----------------------------
(***************************************************************************)
(* Observed runs of real programs against the meaning.  mode:              *)
(*  "eager"  called under an interpreter                                   *)
(*  "traced" traced, then evaluated (possibly with other arguments)        *)
(*  "lazy"   operations recorded first and forced one result at a time:    *)
(*           an operation may be repeated for another result, so only the  *)
(*           results are compared                                          *)
(***************************************************************************)
EXTENDS Tracing, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l
Tr == Traces[tid]
Init == tid \in 1 .. Len(Traces) /\ l = 1
Void == UNION {{Tr.fns[f].body[i].uid : i \in {j \in 1 .. Len(Tr.fns[f].body) : Tr.fns[f].body[j].k = "op" /\ Tr.fns[f].body[j].nout = 0}} : f \in 1 .. Len(Tr.fns)}
Good(r) == LET e == Eval(Tr.fns, r.params, Tr.outers) IN
           /\ r.res = e.res
           /\ r.mode = "traced" => SameBag(r.log, e.log)
           \* an eager operation without results may be skipped
           /\ r.mode = "eager" => /\ \A u \in Range(r.log) \cup Range(e.log) : Count(r.log, u) <= Count(e.log, u)
                                  /\ SameBag(SelectSeq(r.log, LAMBDA u : u \notin Void), SelectSeq(e.log, LAMBDA u : u \notin Void))
           \* one input per parameter position, at most one per distinct captured object
           /\ r.mode = "traced" => /\ r.nin >= Len(r.params)
                                   /\ r.nin <= Len(r.params) + Cardinality({Tr.outerid[v - Tr.fns[1].np] : v \in UsedCaps(Tr.fns, 1)})
Next == l <= Len(Tr.runs) /\ Good(Tr.runs[l]) /\ l' = l + 1 /\ UNCHANGED tid
TraceSpec == Init /\ [][Next]_<<tid, l>>
Accept == /\ (l = Len(Tr.runs) + 1) => PrintT("@" \o ToJson([acc |-> tid]))
          /\ (IOEnv.TRACE_DIAG = "1") => PrintT("@" \o ToJson([at |-> l]))
=============================================================================
