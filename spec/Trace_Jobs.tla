------------------------------- MODULE Trace_Jobs -------------------------------
(* Recorded histories of a real worker: calls of clients (with a call and a   *)
(* return event, so that overlapping calls may take effect in any order) and  *)
(* what the operations of the jobs do.                                        *)
(* Events (i: which accepted or attempted submission, 0: none):               *)
(*   call c k id bad i   k: submit | status;  bad: no identifier or           *)
(*                       undecodable                                          *)
(*   ret  c code s i     s: reported status; i: the submission whose result   *)
(*                       or error the response carries (0: none)              *)
(*   begin i / done i bad   the operations of the job, bad: they failed       *)
(*   final               nothing runs any more                                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, st, ran, open, cur
tv == <<tid, l, st, ran, open, cur>>
T == Traces[tid]
Ids == 1 .. T.ids
None == "none"
Active == {i \in Ids : st[i] \in {"PENDING", "RUNNING"}}
\* cur[id]: the submission that made the job id; ran[id]: "no", "begun", "SUCCESS" or "FAILED";
\* open: calls in progress, with their answer once they took effect
Init == /\ tid \in 1 .. Len(Traces) /\ l = 1 /\ st = [i \in Ids |-> None] /\ ran = [i \in Ids |-> "no"] /\ open = {} /\ cur = [i \in Ids |-> 0]
E == T.ev[l]
Adv == l <= Len(T.ev) /\ l' = l + 1 /\ UNCHANGED tid
Call == /\ Adv /\ E.e = "call"
        /\ open' = open \cup {[c |-> E.c, k |-> E.k, id |-> E.id, bad |-> E.bad, i |-> E.i, done |-> FALSE, code |-> 0, s |-> None]}
        /\ UNCHANGED <<st, ran, cur>>
Answer(x, code, s, i) == open' = (open \ {x}) \cup {[x EXCEPT !.done = TRUE, !.code = code, !.s = s, !.i = i]}
Take == /\ \E x \in open :
             /\ ~x.done
             /\ CASE x.k = "status" -> /\ IF st[x.id] = None THEN Answer(x, 404, None, 0) ELSE Answer(x, 200, st[x.id], IF x.id \in Active THEN 0 ELSE cur[x.id])
                                       /\ UNCHANGED <<st, ran, cur>>
                  [] x.k = "submit" /\ x.bad -> Answer(x, 400, None, 0) /\ UNCHANGED <<st, ran, cur>>
                  [] x.k = "submit" /\ ~x.bad ->
                       IF Active # {} THEN Answer(x, 409, None, 0) /\ UNCHANGED <<st, ran, cur>>
                       ELSE /\ Answer(x, 200, None, 0) /\ st' = [st EXCEPT ![x.id] = "PENDING"] /\ ran' = [ran EXCEPT ![x.id] = "no"]
                            /\ cur' = [cur EXCEPT ![x.id] = x.i]
        /\ UNCHANGED <<tid, l>>
\* a bad submission may be answered with any refusal
Same(x) == IF x.bad THEN E.code \in 400 .. 499 ELSE E.code = x.code /\ E.s = x.s /\ E.i = x.i
Ret == /\ Adv /\ E.e = "ret"
       /\ \E x \in open : x.c = E.c /\ x.done /\ Same(x) /\ open' = open \ {x}
       /\ UNCHANGED <<st, ran, cur>>
Start == /\ \E i \in Ids : st[i] = "PENDING" /\ st' = [st EXCEPT ![i] = "RUNNING"]
         /\ UNCHANGED <<tid, l, ran, open, cur>>
Of(i) == {j \in Ids : cur[j] = i /\ j \in Active}
Begin == Adv /\ E.e = "begin" /\ (\E j \in Of(E.i) : st[j] = "RUNNING" /\ ran[j] = "no" /\ ran' = [ran EXCEPT ![j] = "begun"]) /\ UNCHANGED <<st, open, cur>>
Done == Adv /\ E.e = "done" /\ (\E j \in Of(E.i) : ran[j] = "begun" /\ ran' = [ran EXCEPT ![j] = IF E.bad THEN "FAILED" ELSE "SUCCESS"]) /\ UNCHANGED <<st, open, cur>>
Publish == /\ \E i \in Ids : st[i] = "RUNNING" /\ ran[i] \in {"SUCCESS", "FAILED"} /\ st' = [st EXCEPT ![i] = ran[i]]
           /\ UNCHANGED <<tid, l, ran, open, cur>>
Final == Adv /\ E.e = "final" /\ Active = {} /\ open = {} /\ UNCHANGED <<st, ran, open, cur>>
Next == Call \/ Take \/ Ret \/ Start \/ Begin \/ Done \/ Publish \/ Final
TraceSpec == Init /\ [][Next]_tv
OneActive == Cardinality(Active) <= 1
Accept == /\ (l = Len(T.ev) + 1) => PrintT("@" \o ToJson([acc |-> tid]))
          /\ (IOEnv.TRACE_DIAG = "1") => PrintT("@" \o ToJson([at |-> l]))
=============================================================================
