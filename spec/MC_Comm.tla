------------------------------ MODULE MC_Comm -------------------------------
(* Exhaustive instance: a few threads call arbitrary operations; history    *)
(* variables record what was accepted and received.                         *)
EXTENDS Comm
CONSTANTS Threads, MaxCalls, MaxClock, Shuts
VARIABLES calls, accepted, received
mcvars == <<vars, calls, accepted, received>>
Ranks == {0, 1}
Keys == {"a", "b"}
SendOps == { [op |-> "send", to |-> 1, frm |-> 0, key |-> k, v |-> c, peer |-> p, stall |-> 2, tmo |-> 1, eps |-> 0, n |-> 0, async |-> FALSE, out |-> -1]
             : k \in Keys, c \in {calls}, p \in {"ok", "status", "lostack", "stall"} }
RecvOps == { [op |-> "recv", to |-> 1, frm |-> 0, key |-> k, tmo |-> tm, eps |-> 0, out |-> -1] : k \in Keys, tm \in {-1, 1} }
ShutOps == IF Shuts THEN { [op |-> "shutdown", to |-> 1, out |-> -1] } ELSE {}
Init == /\ box = {} /\ shut = {} /\ clock = 0
        /\ ops = [t \in Threads |-> NoOp]
        /\ stats = [r \in Ranks |-> Zero]
        /\ calls = 0 /\ accepted = {} /\ received = {}
DoCall == /\ calls < MaxCalls
          /\ \E t \in Threads, o \in SendOps \cup RecvOps \cup ShutOps : Call(t, o)
          /\ calls' = calls + 1 /\ UNCHANGED <<accepted, received>>
DoInternal == /\ \E t \in Threads : Internal(t)
              /\ accepted' = accepted \cup {m.val : m \in box' \ box}
              /\ received' = received \cup {m.val : m \in box \ box'}
              /\ UNCHANGED calls
DoReturn == (\E t \in Threads : Return(t)) /\ UNCHANGED <<calls, accepted, received>>
Tick == clock < MaxClock /\ clock' = clock + 1 /\ UNCHANGED <<box, shut, ops, stats, calls, accepted, received>>
Next == DoCall \/ DoInternal \/ DoReturn \/ Tick
Spec == Init /\ [][Next]_mcvars
Sym == Permutations(Threads)
Step(t) == /\ Internal(t)
           /\ accepted' = accepted \cup {m.val : m \in box' \ box}
           /\ received' = received \cup {m.val : m \in box \ box'}
           /\ UNCHANGED calls
FairSpec == Spec /\ (\A t \in Threads : WF_mcvars(Step(t)) /\ WF_mcvars(Return(t) /\ UNCHANGED <<calls, accepted, received>>)) /\ WF_mcvars(Tick)
(* C01: nothing accepted is lost or duplicated; C02: a bounded receive ends *)
NothingLost == accepted = received \cup {m.val : m \in box}
NotTwice == \A m \in box : m.val \notin received
BoundedEnds == \A t \in Threads : (Active(t) /\ ops[t].op = "recv" /\ ops[t].tmo >= 0 /\ ops[t].t0 + ops[t].tmo <= MaxClock) ~> ~Active(t)
StatsExact == \A r \in Ranks :
   stats[r].sent + stats[r].errs + stats[r].recvd + stats[r].tmos <= calls
=============================================================================
