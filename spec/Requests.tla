------------------------------ MODULE Requests ------------------------------
(***************************************************************************)
(* Non-blocking request handles (property C03).                            *)
(* fut[i]: what has become of request i.  Client operations take effect    *)
(* atomically between call and return.                                     *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES fut, ops, clock, ack  \* ack: cancelled requests their executor has dropped
vars == <<fut, ops, clock, ack>>

Pending == [k |-> "pend", v |-> 0]
Running == [k |-> "run", v |-> 0]
Finished(i) == fut[i].k \in {"val", "err", "can"}
NoOp == [st |-> "idle"]
Active(t) == ops[t].st # "idle"

Call(t, o) == /\ ops[t].st = "idle"
              /\ ops' = [ops EXCEPT ![t] = o @@ [st |-> "called", t0 |-> clock, res |-> [k |-> "none", v |-> 0]]]
              /\ UNCHANGED <<fut, clock, ack>>
Done(t, r) == ops' = [ops EXCEPT ![t].st = "acted", ![t].res = r]
Return(t) == Active(t) /\ ops[t].st = "acted" /\ ops' = [ops EXCEPT ![t] = NoOp] /\ UNCHANGED <<fut, clock, ack>>
Is(t, op) == Active(t) /\ ops[t].st = "called" /\ ops[t].op = op
OK == [k |-> "ok", v |-> 1]
NO == [k |-> "ok", v |-> 0]

\* a batch wait may go on waiting for a cancelled request until its executor has dropped it
Woken(i) == Finished(i) /\ (fut[i].k = "can" => i \in ack)
AllWoken(is) == \A j \in 1 .. Len(is) : Woken(is[j])
NoneWoken(is) == \A j \in 1 .. Len(is) : ~Woken(is[j])

(* ---- the worker that executes the request ---- *)
EnvStart(t) == /\ Is(t, "start")
               /\ LET i == ops[t].i IN
                  IF fut[i].k = "pend" THEN fut' = [fut EXCEPT ![i] = Running] /\ Done(t, OK) /\ UNCHANGED ack
                                       ELSE UNCHANGED fut /\ Done(t, NO) /\ ack' = ack \union {i}
               /\ UNCHANGED clock
EnvEnd(t) == /\ Is(t, "end")
             /\ LET i == ops[t].i IN
                fut[i].k = "run" /\ fut' = [fut EXCEPT ![i] = ops[t].out] /\ Done(t, OK)
             /\ UNCHANGED <<clock, ack>>
(* ---- client operations ---- *)
Cancel(t) == /\ Is(t, "cancel")
             /\ LET i == ops[t].i IN
                IF fut[i].k \in {"pend", "can"} THEN fut' = [fut EXCEPT ![i] = [k |-> "can", v |-> 0]] /\ Done(t, OK)
                ELSE UNCHANGED fut /\ Done(t, NO)
             /\ UNCHANGED <<clock, ack>>
Status(t) == /\ Is(t, "status")
             /\ LET f == fut[ops[t].i] IN
                Done(t, [k |-> IF f.k = "run" THEN "pend" ELSE f.k, v |-> 0])
             /\ UNCHANGED <<fut, clock, ack>>
\* test() of a cancelled request may say "finished without a result" or raise
Test(t) == /\ Is(t, "test")
           /\ LET f == fut[ops[t].i] IN
              CASE f.k \in {"pend", "run"} -> Done(t, [k |-> "pend", v |-> 0])
                [] OTHER -> Done(t, f)
           /\ UNCHANGED <<fut, clock, ack>>
Late(t) == ops[t].tmo >= 0 /\ clock >= ops[t].t0 + ops[t].tmo - 30
Wait(t) == /\ Is(t, "wait")
           /\ LET f == fut[ops[t].i] IN
              \/ f.k \in {"val", "err", "can"} /\ Done(t, f)
              \/ f.k \in {"pend", "run"} /\ Late(t) /\ Done(t, [k |-> "tmo", v |-> 0])
           /\ UNCHANGED <<fut, clock, ack>>
Vals(is) == [j \in 1 .. Len(is) |-> fut[is[j]].v]
AllFin(is) == \A j \in 1 .. Len(is) : Finished(is[j])
\* results of a whole batch: in order, only if all are finished; the error of a failed one may be raised
BatchRes(t) ==
  LET is == ops[t].is IN
  \/ /\ AllFin(is) /\ \A j \in 1 .. Len(is) : fut[is[j]].k \in {"val", "can"}
     /\ Done(t, [k |-> "all", v |-> Vals(is)])
  \/ \E j \in 1 .. Len(is) : fut[is[j]].k \in {"err", "can"} /\ Done(t, fut[is[j]])
WaitAll(t) == /\ Is(t, "waitall")
              /\ \/ BatchRes(t)
                 \/ ~AllWoken(ops[t].is) /\ Late(t) /\ Done(t, [k |-> "tmo", v |-> 0])
              /\ UNCHANGED <<fut, clock, ack>>
TestAll(t) == /\ Is(t, "testall")
              /\ \/ BatchRes(t)
                 \/ ~AllFin(ops[t].is) /\ Done(t, [k |-> "pend", v |-> 0])
              /\ UNCHANGED <<fut, clock, ack>>
AnyRes(t) ==
  LET is == ops[t].is IN
  \E j \in 1 .. Len(is) : Finished(is[j]) /\
     \/ fut[is[j]].k \in {"val", "can"} /\ Done(t, [k |-> "any", i |-> j, v |-> fut[is[j]].v])
     \/ fut[is[j]].k \in {"err", "can"} /\ Done(t, fut[is[j]])
NoneFin(is) == \A j \in 1 .. Len(is) : ~Finished(is[j])
WaitAny(t) == /\ Is(t, "waitany")
              /\ \/ AnyRes(t)
                 \/ Len(ops[t].is) = 0 /\ Done(t, [k |-> "bad", v |-> 0])
                 \/ Len(ops[t].is) > 0 /\ NoneWoken(ops[t].is) /\ Late(t) /\ Done(t, [k |-> "tmo", v |-> 0])
              /\ UNCHANGED <<fut, clock, ack>>
TestAny(t) == /\ Is(t, "testany")
              /\ \/ AnyRes(t)
                 \/ NoneFin(ops[t].is) /\ Done(t, [k |-> "pend", v |-> 0])
              /\ UNCHANGED <<fut, clock, ack>>
Internal(t) == \/ EnvStart(t) \/ EnvEnd(t) \/ Cancel(t) \/ Status(t) \/ Test(t) \/ Wait(t)
               \/ WaitAll(t) \/ TestAll(t) \/ WaitAny(t) \/ TestAny(t)
\* waiting operations may stay blocked only while nothing they wait for is there
MayBlock(t) == LET o == ops[t] IN
  /\ o.st = "called"
  /\ \/ o.op = "wait" /\ ~Finished(o.i) /\ o.tmo < 0
     \/ o.op = "waitall" /\ ~AllWoken(o.is) /\ o.tmo < 0
     \/ o.op = "waitany" /\ Len(o.is) > 0 /\ NoneWoken(o.is) /\ o.tmo < 0
(* ---- properties ---- *)
Terminal == [][\A i \in DOMAIN fut : Finished(i) => fut'[i] = fut[i]]_vars
=============================================================================
