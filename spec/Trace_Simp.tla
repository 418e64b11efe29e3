----------------------------- MODULE Trace_Simp ------------------------------
(* Every line: one program with its inputs, whether the implementation       *)
(* accepted it and with which types, and what its executions produced.       *)
EXTENDS Simp, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l
T == Traces[tid]
W == 0 .. T.world - 1
InTypes == [k \in 1 .. Len(T.inputs) |-> [ps |-> Range(T.inputs[k].ps), vt |-> T.inputs[k].vt]]
InVals == [k \in 1 .. Len(T.inputs) |-> [r \in W |-> T.inputs[k].vals[r + 1]]]
Ty == Typing(T.prog, InTypes)
M == Meaning(T.prog, InVals, W)
TypesAgree == Ty.ok = T.accepted /\ (Ty.ok => /\ Len(T.types) = Len(Ty.t)
                /\ \A k \in 1 .. Len(Ty.t) : Range(T.types[k].ps) = Ty.t[k].ps /\ T.types[k].vt = Ty.t[k].vt)
Vals(m) == [k \in 1 .. Len(m.vals) |-> [r \in 1 .. T.world |-> m.vals[k][r - 1]]]
\* who holds a result is what its type says
Placed(m) == \A k \in 1 .. Len(Ty.t) : Ty.t[k].ps # Dyn => {r \in W : m.vals[k][r] # None} = Ty.t[k].ps
Aspect == IOEnv.SIMP_ASPECT    \* which of the properties is being decided
\* C07: every party ends with the values of the sequential reading (an error where a declared-uniform predicate is not uniform)
MeaningOk(run, m) == IF m.err THEN run.out = "error" ELSE run.out = "ok" /\ run.vals = Vals(m)
\* C08: operations run where their inputs are, values travel along the routes only, truth values between participants only
FlowOk(run, m) == /\ IF run.out = "ok" /\ ~m.err THEN SameBag(run.log, m.log) ELSE m.err \/ SubBag(run.log, m.log)
                  /\ SubBag(run.wire, m.tr) \/ m.err
                  /\ \A i \in 1 .. Len(run.truths) : \E c \in m.conds : {run.truths[i][1], run.truths[i][2]} \subseteq c
\* C09: the holders are those of the type
HeldOk(run) == run.out # "ok" \/ (/\ Len(run.vals) = Len(Ty.t)
                  /\ \A k \in 1 .. Len(Ty.t) : Ty.t[k].ps # Dyn => {r \in W : run.vals[k][r + 1] # None} = Ty.t[k].ps)
\* C10: an operation that runs fails, or something else failed: the caller gets an error; otherwise the values of the sequential reading
FailureOk(run, m) == IF m.err \/ run.other \/ \E i \in 1 .. Len(run.fail) : \E j \in 1 .. Len(m.log) : m.log[j] = run.fail[i]
                     THEN run.out = "error" ELSE run.out = "ok" /\ run.vals = Vals(m)
\* C11: exactly the operations and values of the request executed alone
AloneOk(run, m) == FailureOk(run, m) /\ (run.out = "ok" => SameBag(run.log, m.log))
RunOk(run, m) == IF Aspect = "C07" THEN MeaningOk(run, m)
                 ELSE IF Aspect = "C08" THEN FlowOk(run, m)
                 ELSE IF Aspect = "C10" THEN FailureOk(run, m)
                 ELSE IF Aspect = "C11" THEN AloneOk(run, m)
                 ELSE IF Aspect = "C09" THEN m.err \/ HeldOk(run)
                 ELSE MeaningOk(run, m) /\ FlowOk(run, m)
\* the first thing that does not agree
Verdict == IF Aspect \in {"C09", "all"} /\ ~TypesAgree THEN 1
           ELSE IF ~Ty.ok \/ T.runs = <<>> THEN 0
           ELSE LET m == M IN
                IF ~m.err /\ ~Placed(m) THEN 2
                ELSE LET bad == {i \in 1 .. Len(T.runs) : ~RunOk(T.runs[i], m)} IN
                     IF bad = {} THEN 0 ELSE 10 + (CHOOSE i \in bad : \A j \in bad : i <= j)
Init == tid \in 1 .. Len(Traces) /\ l = 1
Next == l = 1 /\ l' = (IF Verdict = 0 THEN 2 ELSE 100 + Verdict) /\ UNCHANGED tid
TraceSpec == Init /\ [][Next]_<<tid, l>>
Accept == /\ (l = 2) => PrintT("@" \o ToJson([acc |-> tid]))
          /\ (l >= 100 /\ IOEnv.TRACE_DIAG = "1") =>
               (LET m == IF Ty.ok THEN M ELSE Nothing IN
                PrintT("@" \o ToJson([at |-> l - 100, tyok |-> Ty.ok, ty |-> [k \in 1 .. Len(Ty.t) |-> [ps |-> Asc(Ty.t[k].ps), vt |-> Ty.t[k].vt]],
                                      vals |-> IF m.err THEN <<>> ELSE Vals(m), log |-> m.log, tr |-> m.tr, err |-> m.err])))
=============================================================================
