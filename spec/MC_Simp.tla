------------------------------ MODULE MC_Simp --------------------------------
(* How parties execute routing statements one after another with one message *)
(* counter per peer: for every pair of routings (and an optional comparison  *)
(* of a declared-uniform predicate in between) every party terminates, holds *)
(* what the sequential reading (Simp!Shuffle) gives it, and nothing is left. *)
EXTENDS Simp
CONSTANTS NP, Middle       \* Middle: also compare predicates between the two
W == 0 .. NP - 1
Routings == {f \in [W -> W \cup {None}] : \E t \in W : f[t] # None}
RtSeq(f) == LET ts == Asc({t \in W : f[t] # None}) IN [k \in 1 .. Len(ts) |-> <<ts[k], f[ts[k]]>>]
VARIABLES r1, r2, pc, val, net, cnt
vars == <<r1, r2, pc, val, net, cnt>>
\* the steps of party p in a shuffle: sends in routing order, but towards the party it
\* receives from only after receiving if that party has the higher rank
Sends(f, p, late) == LET ts == Asc({t \in W : f[t] = p /\ t # p /\ ((f[p] = t /\ p < t) = late)})
                     IN [k \in 1 .. Len(ts) |-> [a |-> "send", q |-> ts[k]]]
ShufSteps(f, p) == Sends(f, p, FALSE) \o (IF f[p] \notin {p, None} THEN <<[a |-> "recv", q |-> f[p]]>> ELSE <<>>) \o Sends(f, p, TRUE) \o <<[a |-> "set", q |-> 0]>>
\* gather-and-broadcast through party 0
CmpSteps(p) == IF ~Middle \/ NP = 1 THEN <<>>
               ELSE IF p = 0 THEN [k \in 1 .. NP - 1 |-> [a |-> "rcmp", q |-> k]] \o [k \in 1 .. NP - 1 |-> [a |-> "scmp", q |-> k]]
               ELSE <<[a |-> "scmp", q |-> 0], [a |-> "rcmp", q |-> 0]>>
Steps(p) == ShufSteps(r1, p) \o CmpSteps(p) \o ShufSteps(r2, p)
In1(p) == pc[p] <= Len(ShufSteps(r1, p))
Init == /\ r1 \in Routings /\ r2 \in Routings
        /\ pc = [p \in W |-> 1] /\ net = {}
        /\ cnt = [p \in W |-> [q \in W |-> 0]]
        /\ val = [p \in W |-> [cur |-> 10 + p, got |-> IF r1[p] = p THEN 10 + p ELSE None]]
Bump(p, q) == cnt' = [cnt EXCEPT ![p][q] = @ + 1]
Step(p) == /\ pc[p] <= Len(Steps(p))
           /\ LET s == Steps(p)[pc[p]] IN
              IF s.a \in {"send", "scmp"}
              THEN /\ net' = net \cup {[f |-> p, t |-> s.q, n |-> cnt[p][s.q], v |-> IF s.a = "send" THEN val[p].cur ELSE 0]}
                   /\ Bump(p, s.q) /\ UNCHANGED val
              ELSE IF s.a \in {"recv", "rcmp"}
              THEN \E m \in net : /\ m.f = s.q /\ m.t = p /\ m.n = cnt[p][s.q]
                                  /\ net' = net \ {m} /\ Bump(p, s.q)
                                  /\ val' = IF s.a = "recv" THEN [val EXCEPT ![p].got = m.v] ELSE val
              ELSE /\ UNCHANGED <<net, cnt>>
                   /\ LET v == val[p].got
                      IN val' = [val EXCEPT ![p] = [cur |-> v, got |-> IF In1(p) /\ r2[p] = p THEN v ELSE None]]
           /\ pc' = [pc EXCEPT ![p] = @ + 1]
           /\ UNCHANGED <<r1, r2>>
Next == \E p \in W : Step(p)
Spec == Init /\ [][Next]_vars
Done == \A p \in W : pc[p] > Len(Steps(p))
NoDeadlock == Done \/ ENABLED Next
\* the second routing is applied to the result of the first, wherever that holds values
V0 == [p \in W |-> 10 + p]
Sem == LET a == Shuffle(V0, RtSeq(r1), W).vals[1] IN Shuffle(a, RtSeq(r2), W).vals[1]
RightValues == Done => \A p \in W : val[p].cur = Sem[p]
NothingLeft == Done => net = {}
=============================================================================
