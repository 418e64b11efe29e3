--------------------------------- MODULE Jobs ----------------------------------
(* Asynchronous jobs of a worker: submissions, execution in the background,   *)
(* publication of the outcome, status requests.                               *)
(* A worker stores of every job a status, a result and an error; the executor *)
(* writes them one after the other, so their order matters (PublishFirst).    *)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANTS Ids, MaxSubmits, PublishFirst     \* PublishFirst: the outcome is stored before the status
VARIABLES st, out, exec, seen, submits
vars == <<st, out, exec, seen, submits>>
None == "none"
Active == {i \in Ids : st[i] \in {"pending", "running"}}
\* exec[i]: where the executor is with job i; out[i]: the stored outcome; seen[i]: the last response of a status request
Init == /\ st = [i \in Ids |-> None] /\ out = [i \in Ids |-> None] /\ exec = [i \in Ids |-> None]
        /\ seen = [i \in Ids |-> <<None, None>>] /\ submits = 0
Submit(i) == /\ submits < MaxSubmits /\ submits' = submits + 1
             /\ IF Active = {}
                THEN st' = [st EXCEPT ![i] = "pending"] /\ out' = [out EXCEPT ![i] = None] /\ exec' = [exec EXCEPT ![i] = "queued"] /\ seen' = [seen EXCEPT ![i] = <<None, None>>]
                ELSE UNCHANGED <<st, out, exec, seen>>       \* refused
Start(i) == exec[i] = "queued" /\ exec' = [exec EXCEPT ![i] = "busy"] /\ st' = [st EXCEPT ![i] = "running"] /\ UNCHANGED <<out, seen, submits>>
Done(i, o) == exec[i] = "busy" /\ exec' = [exec EXCEPT ![i] = o] /\ UNCHANGED <<st, out, seen, submits>>
O == {"success", "failed"}
First(i) == /\ exec[i] \in O
            /\ IF PublishFirst THEN out' = [out EXCEPT ![i] = exec[i]] /\ UNCHANGED st ELSE st' = [st EXCEPT ![i] = exec[i]] /\ UNCHANGED out
            /\ exec' = [exec EXCEPT ![i] = "half-" \o exec[i]] /\ UNCHANGED <<seen, submits>>
Second(i) == \E o \in O : /\ exec[i] = "half-" \o o
                          /\ IF PublishFirst THEN st' = [st EXCEPT ![i] = o] /\ UNCHANGED out ELSE out' = [out EXCEPT ![i] = o] /\ UNCHANGED st
                          /\ exec' = [exec EXCEPT ![i] = None] /\ UNCHANGED <<seen, submits>>
Poll(i) == seen' = [seen EXCEPT ![i] = <<st[i], out[i]>>] /\ UNCHANGED <<st, out, exec, submits>>
Next == \E i \in Ids : Submit(i) \/ Start(i) \/ (\E o \in O : Done(i, o)) \/ First(i) \/ Second(i) \/ Poll(i)
Fair == \A i \in Ids : WF_vars(Start(i)) /\ WF_vars(\E o \in O : Done(i, o)) /\ WF_vars(First(i)) /\ WF_vars(Second(i))
Spec == Init /\ [][Next]_vars /\ Fair
\* --------------------------------------------------------------- properties
OneActive == Cardinality(Active) <= 1
OutcomeVisible == \A i \in Ids : seen[i][1] \in O => seen[i][2] = seen[i][1]
Rank(s) == CASE s = None -> 0 [] s = "pending" -> 1 [] s = "running" -> 2 [] s \in O -> 3
OnlyForward == [][\A i \in Ids : seen'[i] # seen[i] => (Rank(seen'[i][1]) > Rank(seen[i][1]) \/ seen'[i][1] = seen[i][1] \/ st'[i] = "pending" \/ seen'[i][1] = None)]_vars
\* two polls without a submission in between
Steady == [][\A i \in Ids : st[i] \in O => (st'[i] = st[i] \/ submits' # submits)]_vars
JobsEnd == \A i \in Ids : st[i] = "pending" ~> st[i] \in O
=============================================================================
