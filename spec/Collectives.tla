---------------------------- MODULE Collectives -----------------------------
(* Collective operations over subsets of parties, as their callers see them. *)
(* A run is a fixed plan: plan[c] is the c-th collective, with the set of    *)
(* its participants, its kind, its root and every participant's own input.   *)
(* Every party performs the collectives it takes part in, in plan order.     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES plan,   \* sequence of collectives
          pos,    \* pos[p]: the collective party p is inside (0 when in none)
          last,   \* last[p]: the last collective party p has left
          ran     \* ran[p]: set of collectives of which p has executed a branch (C06)
vars == <<plan, pos, last, ran>>

RECURSIVE SortedSeq(_)
SortedSeq(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SortedSeq(S \ {m})
Parts(c) == {plan[c].parts[i] : i \in 1 .. Len(plan[c].parts)}
Val(c, p) == plan[c].vals[p + 1]
Callers(c) == {plan[c].callers[i] : i \in 1 .. Len(plan[c].callers)}
World == 0 .. Len(plan[1].vals) - 1
\* badly formed participant lists (or a caller outside them) are refused
Proper(c) == /\ Parts(c) # {} /\ Callers(c) = Parts(c)/\ Parts(c) \subseteq World
             /\ plan[c].kind = "broadcast" => plan[c].root \in Parts(c)
\* the result that every participant must get
Truths(c) == { Val(c, p) # 0 : p \in Parts(c) }
Bit(b) == IF b THEN 1 ELSE 0
Result(c) ==
  LET k == plan[c].kind IN
  IF ~Proper(c) THEN [k |-> "bad", v |-> <<>>]
  ELSE IF k = "barrier" THEN [k |-> "ok", v |-> <<>>]
  ELSE IF k = "broadcast" THEN [k |-> "ok", v |-> <<Val(c, plan[c].root)>>]
  ELSE IF k = "allgather" THEN [k |-> "ok", v |-> [i \in 1 .. Cardinality(Parts(c)) |-> Val(c, SortedSeq(Parts(c))[i])]]
  ELSE IF k = "gatherbool" THEN [k |-> "ok", v |-> [i \in 1 .. Cardinality(Parts(c)) |-> Bit(Val(c, SortedSeq(Parts(c))[i]) # 0)]]
  ELSE IF k = "and" THEN [k |-> "ok", v |-> <<Bit(~(FALSE \in Truths(c)))>>]
  ELSE IF k = "or" THEN [k |-> "ok", v |-> <<Bit(TRUE \in Truths(c))>>]
  ELSE IF k = "xor" THEN [k |-> "ok", v |-> <<Cardinality({p \in Parts(c) : Val(c, p) # 0}) % 2>>]
  ELSE \* "uniform" / "cond": a declared-uniform predicate
       IF Cardinality(Truths(c)) = 1 THEN [k |-> "ok", v |-> <<Bit(TRUE \in Truths(c))>>] ELSE [k |-> "disagree", v |-> <<>>]

Mine(p, c) == p \in Callers(c)
NextOf(p) == LET S == {c \in last[p] + 1 .. Len(plan) : Mine(p, c)} IN IF S = {} THEN 0 ELSE CHOOSE c \in S : \A d \in S : c <= d
Entered(p, c) == pos[p] = c \/ last[p] >= c
Left(p, c) == last[p] >= c

Enter(p) == /\ pos[p] = 0 /\ NextOf(p) # 0
            /\ pos' = [pos EXCEPT ![p] = NextOf(p)] /\ UNCHANGED <<plan, last, ran>>
\* what must have happened before p may know its result
Ready(p, c) == IF ~Proper(c) THEN TRUE
               ELSE IF plan[c].kind = "broadcast" THEN Entered(plan[c].root, c)
               ELSE \A q \in Parts(c) : Entered(q, c)
\* one operation of the taken branch is executed: only inside the conditional, on agreement, of the agreed side
Branch(p, side) == /\ pos[p] # 0 /\ plan[pos[p]].kind = "cond" /\ Ready(p, pos[p])
                   /\ Result(pos[p]).k = "ok" /\ Result(pos[p]).v[1] = side
                   /\ ran' = [ran EXCEPT ![p] = @ \cup {pos[p]}] /\ UNCHANGED <<plan, pos, last>>
Leave(p, r) == /\ pos[p] # 0 /\ Ready(p, pos[p]) /\ r = Result(pos[p])
               /\ (plan[pos[p]].kind = "cond" /\ r.k = "ok") => pos[p] \in ran[p]
               /\ last' = [last EXCEPT ![p] = pos[p]] /\ pos' = [pos EXCEPT ![p] = 0] /\ UNCHANGED <<plan, ran>>
\* a message from p to q: only inside a collective in which both take part
Wire(p, q) == /\ pos[p] # 0 /\ Proper(pos[p]) /\ p # q /\ q \in Parts(pos[p]) /\ p \in Parts(pos[p]) /\ UNCHANGED vars
Done == \A p \in DOMAIN pos : pos[p] = 0 /\ NextOf(p) = 0

BarrierSafe == \A c \in DOMAIN plan : (plan[c].kind = "barrier" /\ Proper(c)) =>
                 ((\E p \in Parts(c) : Left(p, c)) => \A q \in Parts(c) : Entered(q, c))
NoBranchOnDisagreement == \A p \in DOMAIN ran : \A c \in ran[p] : Result(c).k = "ok"
=============================================================================
