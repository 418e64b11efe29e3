-------------------------------- MODULE Comm --------------------------------
(***************************************************************************)
(* Point-to-point communication of a SIMP worker (properties C01, C02).    *)
(*                                                                         *)
(* One mailbox per rank, keyed by (sender, key).  An operation is called,  *)
(* takes effect in one or two internal steps (the critical section, then   *)
(* the statistics update) and returns.  Asynchronous sends are calls of    *)
(* their own pseudo thread: their return is observed through the handle.   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES
  box,      \* set of [to, frm, key, val]: accepted and not yet received
  shut,     \* ranks whose communicator was shut down
  ops,      \* thread -> operation record
  stats,    \* rank -> counters
  clock     \* milliseconds

vars == <<box, shut, ops, stats, clock>>

NoOp == [st |-> "idle"]
Zero == [sent |-> 0, errs |-> 0, recvd |-> 0, tmos |-> 0]

At(to, frm, key) == {m \in box : m.to = to /\ m.frm = frm /\ m.key = key}
Has(to, frm, key) == At(to, frm, key) # {}

Active(t) == ops[t].st # "idle"

(* -------------------------------- calls -------------------------------- *)
Call(t, o) ==
  /\ ops[t].st = "idle"
  /\ ops' = [ops EXCEPT ![t] = o @@ [st |-> "called", t0 |-> clock, res |-> "none", posted |-> FALSE,
       must |-> IF o.op = "waitpending"
                THEN {u \in DOMAIN ops : IF ops[u].st = "idle" THEN FALSE
                                         ELSE IF ops[u].op # "send" THEN FALSE
                                         ELSE ops[u].async /\ ops[u].frm = o.to /\ ops[u].posted}
                ELSE {}]]
  /\ UNCHANGED <<box, shut, stats, clock>>

Finish(t, res, val) ==
  ops' = [ops EXCEPT ![t].st = "acted", ![t].res = res, ![t].out = val]

\* send() has returned its handle: from now on the send is outstanding.
Posted(t) ==
  /\ ops[t].st # "idle" /\ ops' = [ops EXCEPT ![t].posted = TRUE]
  /\ UNCHANGED <<box, shut, stats, clock>>

(* ------------------------- effects of a send --------------------------- *)
(* The peer's scripted behaviour: "ok" accepts what its mailbox accepts,   *)
(* "status" answers with an error status, "refuse" cannot be reached,      *)
(* "lostack" accepts but the answer is lost, "stall" answers only after    *)
(* o.stall milliseconds.                                                   *)
Sends(t) == Active(t) /\ ops[t].op = "send"

SendDeliver(t) ==
  LET o == ops[t] IN
  /\ Sends(t) /\ o.st = "called"
  /\ o.peer \in {"ok", "lostack", "stall"}
  /\ o.peer = "stall" => (o.tmo < 0 \/ o.stall < o.tmo)
  /\ o.peer = "stall" => clock >= o.t0 + o.stall - o.eps
  /\ ~Has(o.to, o.frm, o.key)
  /\ box' = box \cup {[to |-> o.to, frm |-> o.frm, key |-> o.key, val |-> o.v]}
  /\ Finish(t, IF o.peer = "lostack" THEN "error" ELSE "ok", -1)
  /\ UNCHANGED <<shut, stats, clock>>

SendRefused(t) ==
  LET o == ops[t] IN
  /\ Sends(t) /\ o.st = "called"
  /\ \/ o.peer \in {"status", "refuse"}
     \/ o.peer \in {"ok", "lostack", "stall"} /\ Has(o.to, o.frm, o.key)
     \/ o.to \in shut
  /\ Finish(t, "error", -1)
  /\ UNCHANGED <<box, shut, stats, clock>>

SendTimeout(t) ==
  LET o == ops[t] IN
  /\ Sends(t) /\ o.st = "called"
  /\ o.peer = "stall" /\ o.tmo >= 0 /\ o.stall >= o.tmo
  /\ clock >= o.t0 + o.tmo - o.eps
  /\ Finish(t, "timeout", -1)
  /\ UNCHANGED <<box, shut, stats, clock>>

(* ------------------------ effects of a receive ------------------------- *)
Recvs(t) == Active(t) /\ ops[t].op = "recv"

Take(t) ==
  LET o == ops[t] IN
  /\ Recvs(t) /\ o.st = "called"
  /\ \E m \in At(o.to, o.frm, o.key) :
       /\ box' = box \ {m}
       /\ Finish(t, "val", m.val)
  /\ UNCHANGED <<shut, stats, clock>>

RecvTimeout(t) ==
  LET o == ops[t] IN
  /\ Recvs(t) /\ o.st = "called"
  /\ o.tmo >= 0
  /\ clock >= o.t0 + o.tmo - o.eps
  /\ ~Has(o.to, o.frm, o.key)
  /\ Finish(t, "timeout", -1)
  /\ UNCHANGED <<box, shut, stats, clock>>

RecvShut(t) ==
  LET o == ops[t] IN
  /\ Recvs(t) /\ o.st = "called"
  /\ o.to \in shut
  /\ Finish(t, "shut", -1)
  /\ UNCHANGED <<box, shut, stats, clock>>

(* ------------------------------ other ops ------------------------------ *)
Shutdown(t) ==
  LET o == ops[t] IN
  /\ Active(t) /\ o.op = "shutdown" /\ o.st = "called"
  /\ shut' = shut \cup {o.to}
  /\ Finish(t, "ok", -1)
  /\ UNCHANGED <<box, stats, clock>>

\* Waiting for the outstanding sends of a rank: every send posted before.
WaitPending(t) ==
  LET o == ops[t] IN
  /\ Active(t) /\ o.op = "waitpending" /\ o.st = "called"
  /\ \/ \A u \in o.must : ops[u].st \in {"counted", "idle"}
     \/ clock >= o.t0 + o.tmo - o.eps   \* its own time limit
  /\ Finish(t, "ok", -1)
  /\ UNCHANGED <<box, shut, stats, clock>>

Snapshot(t) ==
  LET o == ops[t] IN
  /\ Active(t) /\ o.op = "stats" /\ o.st = "called"
  /\ ops' = [ops EXCEPT ![t].st = "acted", ![t].res = "stats", ![t].out = stats[o.to]]
  /\ UNCHANGED <<box, shut, stats, clock>>

(* ----------------------- statistics, after the act --------------------- *)
Bump(r, f) == stats' = [stats EXCEPT ![r][f] = @ + 1]
Count(t) ==
  LET o == ops[t] IN
  /\ Active(t) /\ o.st = "acted"
  /\ ops' = [ops EXCEPT ![t].st = "counted"]
  /\ CASE o.op = "send" /\ o.res = "ok" -> Bump(o.frm, "sent")
       [] o.op = "send" /\ o.res # "ok" -> Bump(o.frm, "errs")
       [] o.op = "recv" /\ o.res = "val" -> Bump(o.to, "recvd")
       [] o.op = "recv" /\ o.res = "timeout" -> Bump(o.to, "tmos")
       [] OTHER -> UNCHANGED stats
  /\ UNCHANGED <<box, shut, clock>>

Internal(t) ==
  \/ SendDeliver(t) \/ SendRefused(t) \/ SendTimeout(t)
  \/ Take(t) \/ RecvTimeout(t) \/ RecvShut(t)
  \/ Shutdown(t) \/ WaitPending(t) \/ Snapshot(t)
  \/ Count(t)

Return(t) ==
  /\ Active(t) /\ ops[t].st = "counted"
  /\ ops' = [ops EXCEPT ![t] = NoOp]
  /\ UNCHANGED <<box, shut, stats, clock>>

(* A call that may stay blocked for ever: nothing it waits for is there.   *)
MayBlock(t) ==
  LET o == ops[t] IN
  /\ Recvs(t) /\ o.st = "called"
  /\ ~Has(o.to, o.frm, o.key) /\ o.to \notin shut /\ o.tmo < 0

(* ----------------------------- properties ------------------------------ *)
OnePerKey == \A m1, m2 \in box :
  (m1.to = m2.to /\ m1.frm = m2.frm /\ m1.key = m2.key) => m1 = m2
=============================================================================
