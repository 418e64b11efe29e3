------------------------------- MODULE Failure --------------------------------
(* One request executed by several parties, any of which may fail, and the    *)
(* caller that collects their outcomes.                                       *)
(* A request is a sequence of steps: an operation of some parties or a        *)
(* message from one party to another.  Every party performs its part of the   *)
(* steps in order; a receiver waits until its message is there.               *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS N, MaxSteps, MaxFail, Mode      \* Mode: "mem" (in-process cluster) or "http"
P == 0 .. N - 1
Steps == [k : {"op"}, ps : SUBSET P \ {{}}] \cup {s \in [k : {"msg"}, f : P, t : P] : s.f # s.t}
VARIABLES prog, pc, st, box, failed, open, caller
vars == <<prog, pc, st, box, failed, open, caller>>
Mine(p, i) == IF prog[i].k = "op" THEN p \in prog[i].ps ELSE p \in {prog[i].f, prog[i].t}
NextPc(p, from) == LET js == {j \in from .. Len(prog) : Mine(p, j)} IN
                   IF js = {} THEN Len(prog) + 1 ELSE CHOOSE j \in js : \A i \in js : j <= i
Seqs == UNION {[1 .. n -> Steps] : n \in 0 .. MaxSteps}
Init == /\ prog \in Seqs /\ st = [p \in P |-> "run"] /\ box = {} /\ failed = {}
        /\ pc = [p \in P |-> NextPc(p, 1)] /\ open = TRUE /\ caller = "wait"
Ended(p) == st[p] \in {"ok", "fail"}
Advance(p) == pc' = [pc EXCEPT ![p] = NextPc(p, pc[p] + 1)]
Finish(p) == /\ st[p] = "run" /\ pc[p] > Len(prog) /\ st' = [st EXCEPT ![p] = "ok"]
             /\ UNCHANGED <<prog, pc, box, failed, open, caller>>
Work(p) == /\ st[p] = "run" /\ pc[p] <= Len(prog)
           /\ LET s == prog[pc[p]] IN
              IF s.k = "op" THEN Advance(p) /\ UNCHANGED <<st, box>>
              ELSE IF s.f = p THEN Advance(p) /\ box' = box \cup {pc[p]} /\ UNCHANGED st
              ELSE st' = [st EXCEPT ![p] = "wait"] /\ UNCHANGED <<pc, box>>
           /\ UNCHANGED <<prog, failed, open, caller>>
Fail(p) == /\ st[p] = "run" /\ Cardinality(failed) < MaxFail
           /\ st' = [st EXCEPT ![p] = "fail"] /\ failed' = failed \cup {p}
           /\ UNCHANGED <<prog, pc, box, open, caller>>
Got(p) == /\ st[p] = "wait" /\ pc[p] \in box /\ Advance(p) /\ st' = [st EXCEPT ![p] = "run"]
          /\ UNCHANGED <<prog, box, failed, open, caller>>
\* a waiting party is released: the cluster is shut down, or (HTTP) its deadline passes
Broke(p) == /\ st[p] = "wait" /\ pc[p] \notin box
            /\ IF Mode = "mem" THEN ~open ELSE st[prog[pc[p]].f] = "fail"
            /\ st' = [st EXCEPT ![p] = "fail"]
            /\ UNCHANGED <<prog, pc, box, failed, open, caller>>
\* the caller: in-process it looks at whoever fails first and closes the mailboxes, over HTTP it asks in rank order
CallerOk == caller = "wait" /\ (\A p \in P : st[p] = "ok") /\ caller' = "ok" /\ UNCHANGED <<prog, pc, st, box, failed, open>>
CallerError == /\ caller = "wait"
               /\ IF Mode = "mem" THEN \E p \in P : st[p] = "fail"
                  ELSE \E p \in P : st[p] = "fail" /\ \A q \in 0 .. p - 1 : st[q] = "ok"
               /\ caller' = "error" /\ open' = (Mode # "mem")
               /\ UNCHANGED <<prog, pc, st, box, failed>>
Next == CallerOk \/ CallerError \/ \E p \in P : Finish(p) \/ Work(p) \/ Fail(p) \/ Got(p) \/ Broke(p)
Fair == /\ WF_vars(CallerOk) /\ WF_vars(CallerError)
        /\ \A p \in P : WF_vars(Finish(p)) /\ WF_vars(Work(p)) /\ WF_vars(Got(p)) /\ WF_vars(Broke(p))
Spec == Init /\ [][Next]_vars /\ Fair
\* --------------------------------------------------------------- properties
NoPartialResult == caller = "ok" => failed = {} /\ \A p \in P : st[p] = "ok"
ErrorHasACause == caller = "error" \/ (\E p \in P : st[p] = "fail") => failed # {}
CallerLearns == <>(caller # "wait")
FailureReported == (failed # {}) ~> (caller = "error")
EverybodyEnds == <>[](\A p \in P : Ended(p))
=============================================================================
