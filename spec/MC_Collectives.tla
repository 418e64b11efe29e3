--------------------------- MODULE MC_Collectives ---------------------------
(* The algorithms: gather to the lowest participant, then release; one       *)
(* message counter per peer shared by sends and receives; messages are keyed *)
(* by that counter. Checked: every behaviour is one of Collectives, every    *)
(* party finishes, and nothing is left behind.                               *)
EXTENDS Collectives
CONSTANTS NP, Kinds, NC
VARIABLES cnt,   \* cnt[p][q]: number of exchanges of p with q so far
          box,   \* box[p]: set of [frm, key, v] delivered to p, not yet received
          st,    \* st[p]: where p is inside its collective
          acc    \* acc[p]: what it has gathered (function from participants)
mcvars == <<vars, cnt, box, st, acc>>
P == 0 .. NP - 1
PartSeqs == {<<0, 1>>, <<2, 0>>, <<1, 2>>, <<2, 1, 0>>}
RootFor(ps) == ps[1]
Vals == {[i \in 1 .. NP |-> i % 2], [i \in 1 .. NP |-> 1]}
Init == /\ plan \in [1 .. NC -> { [kind |-> k, parts |-> ps, callers |-> ps, root |-> RootFor(ps), vals |-> v] : k \in Kinds, ps \in PartSeqs, v \in Vals }]
        /\ pos = [p \in P |-> 0] /\ last = [p \in P |-> 0] /\ ran = [p \in P |-> {}]
        /\ cnt = [p \in P |-> [q \in P |-> 0]] /\ box = [p \in P |-> {}] /\ st = [p \in P |-> "out"] /\ acc = [p \in P |-> {}]
Low(c) == CHOOSE x \in Parts(c) : \A y \in Parts(c) : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
C(p) == plan[pos[p]]
ToSend(p, done) == {q \in Parts(pos[p]) \ {p} : q \notin done}
Comm(p, q, v) == /\ box' = [box EXCEPT ![q] = @ \cup {[frm |-> p, key |-> cnt[p][q], v |-> v]}]
                 /\ ~(\E m \in box[q] : m.frm = p /\ m.key = cnt[p][q])
                 /\ cnt' = [cnt EXCEPT ![p][q] = @ + 1]
CanRecv(p, q) == \E m \in box[p] : m.frm = q /\ m.key = cnt[p][q]
Msg(p, q) == CHOOSE m \in box[p] : m.frm = q /\ m.key = cnt[p][q]
Recv(p, q) == CanRecv(p, q) /\ box' = [box EXCEPT ![p] = @ \ {Msg(p, q)}] /\ cnt' = [cnt EXCEPT ![p][q] = @ + 1]
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
IsRoot(p) == IF C(p).kind = "broadcast" THEN p = C(p).root ELSE p = Low(pos[p])
RootOf(p) == IF C(p).kind = "broadcast" THEN C(p).root ELSE Low(pos[p])
\* acc[p]: for the root the set of <<q, v>> gathered, plus <<"s", q>> as released
Gathered(p) == {x[2] : x \in {y \in acc[p] : y[1] = "g"}}
Sent(p) == {x[2] : x \in {y \in acc[p] : y[1] = "s"}}
ResOf(p) == [c |-> pos[p]]
DoEnter(p) == Enter(p) /\ st' = [st EXCEPT ![p] = "in"] /\ acc' = [acc EXCEPT ![p] = {}] /\ UNCHANGED <<cnt, box>>
Step(p) == /\ pos[p] # 0 /\ UNCHANGED vars
  /\ LET c == pos[p] others == Parts(c) \ {p} IN
     \/ /\ st[p] = "in" /\ ~IsRoot(p) /\ C(p).kind # "broadcast" /\ Comm(p, RootOf(p), Val(c, p)) /\ st' = [st EXCEPT ![p] = "wait"] /\ UNCHANGED acc
     \/ /\ st[p] = "in" /\ ~IsRoot(p) /\ C(p).kind = "broadcast" /\ st' = [st EXCEPT ![p] = "wait"] /\ UNCHANGED <<cnt, box, acc>>
     \/ /\ st[p] = "wait" /\ Recv(p, RootOf(p)) /\ st' = [st EXCEPT ![p] = "fin"] /\ acc' = [acc EXCEPT ![p] = {<<"v", Msg(p, RootOf(p)).v>>}]
     \/ /\ st[p] = "in" /\ IsRoot(p) /\ C(p).kind # "broadcast" /\ others \ Gathered(p) # {}
        /\ LET q == MinOf(others \ Gathered(p)) IN Recv(p, q) /\ acc' = [acc EXCEPT ![p] = @ \cup {<<"g", q>>}] /\ UNCHANGED st
     \/ /\ st[p] = "in" /\ IsRoot(p) /\ (C(p).kind = "broadcast" \/ others \ Gathered(p) = {}) /\ others \ Sent(p) # {}
        /\ LET q == MinOf(others \ Sent(p)) IN Comm(p, q, c) /\ acc' = [acc EXCEPT ![p] = @ \cup {<<"s", q>>}] /\ UNCHANGED st
     \/ /\ st[p] = "in" /\ IsRoot(p) /\ others \ Sent(p) = {} /\ (C(p).kind = "broadcast" \/ others \ Gathered(p) = {})
        /\ st' = [st EXCEPT ![p] = "fin"] /\ acc' = [acc EXCEPT ![p] = {<<"v", c>>}] /\ UNCHANGED <<cnt, box>>
\* the released value names the collective it belongs to: a mix-up would show here
DoLeave(p) == /\ st[p] = "fin" /\ acc[p] = {<<"v", pos[p]>>} /\ Leave(p, Result(pos[p]))
              /\ st' = [st EXCEPT ![p] = "out"] /\ UNCHANGED <<cnt, box, acc>>
Next == \E p \in P : DoEnter(p) \/ Step(p) \/ DoLeave(p)
Spec == Init /\ [][Next]_mcvars /\ \A p \in P : WF_mcvars(DoEnter(p) \/ Step(p) \/ DoLeave(p))
\* a party that has its result can always leave (it is never early, never mixed up)
Consistent == \A p \in P : st[p] = "fin" => acc[p] = {<<"v", pos[p]>>} /\ Ready(p, pos[p])
NothingLeft == Done => \A p \in P : box[p] = {}
NoDeadlock == Done \/ ENABLED Next
=============================================================================
