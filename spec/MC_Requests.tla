---------------------------- MODULE MC_Requests -----------------------------
EXTENDS Requests
CONSTANTS Threads, MaxCalls, N
VARIABLES calls, seen
mcvars == <<vars, calls, seen>>
R == 1 .. N
Single == { [op |-> o, i |-> i, tmo |-> tm] : o \in {"cancel", "status", "test", "wait"}, i \in R, tm \in {-1, 1} }
Batch == { [op |-> o, is |-> s, tmo |-> tm] : o \in {"waitall", "testall", "waitany", "testany"}, s \in {<<1, 2>>, <<2, 1>>}, tm \in {-1, 1} }
Env == { [op |-> "start", i |-> i] : i \in R } \cup { [op |-> "end", i |-> i, out |-> [k |-> k, v |-> i]] : i \in R, k \in {"val", "err"} }
Init == fut = [i \in R |-> Pending] /\ ops = [t \in Threads |-> NoOp] /\ clock = 0 /\ ack = {} /\ calls = 0 /\ seen = [i \in R |-> {}]
Next == \/ calls < MaxCalls /\ (\E t \in Threads, o \in Single \cup Batch \cup Env : Call(t, o)) /\ calls' = calls + 1 /\ UNCHANGED seen
        \/ (\E t \in Threads : Internal(t)) /\ UNCHANGED <<calls, seen>>
        \/ \E t \in Threads : Return(t) /\ UNCHANGED calls
             /\ seen' = IF ops[t].op \in {"wait", "test", "status"} /\ ops[t].res.k \in {"val", "err", "can"}
                        THEN [seen EXCEPT ![ops[t].i] = @ \cup {ops[t].res.k}] ELSE seen
        \/ clock < 1 /\ clock' = clock + 1 /\ UNCHANGED <<fut, ops, ack, calls, seen>>
Spec == Init /\ [][Next]_mcvars
OneOutcome == \A i \in R : Cardinality(seen[i]) <= 1
=============================================================================
