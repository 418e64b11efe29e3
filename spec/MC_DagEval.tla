----------------------------- MODULE MC_DagEval ------------------------------
(***************************************************************************)
(* The scheduling algorithm of the parallel evaluator: per-operation       *)
(* counts of missing inputs, a ready queue served by one thread that runs  *)
(* synchronous operations itself and hands asynchronous ones to a pool,    *)
(* release of values after their last use, errors through the queue.       *)
(* Checked for every graph of N operations with up to two inputs, every    *)
(* choice of asynchronous operations and at most one failing operation:    *)
(* every step is a step of DagEval, results equal sequential evaluation,   *)
(* nothing needed is released, and the evaluation always ends.             *)
(***************************************************************************)
EXTENDS DagEval, Integers
CONSTANTS N, MaxOuts
VARIABLES async, failing, \* parameters of the run
          missing, queue, running, left, env, erred
vars == <<dvars, async, failing, missing, queue, running, left, env, erred>>
Pools == 1 .. N
Uses(p, v) == Cardinality({<<i, k>> \in (1 .. Len(p.ops)) \X (1 .. 2) : k <= Len(p.ops[i].ins) /\ p.ops[i].ins[k] = v})
              + Cardinality({k \in 1 .. Len(p.outs) : p.outs[k] = v})
InsChoices(i) == {<<>>} \cup {<<a>> : a \in 1 .. i} \cup {<<a, b>> : a \in 1 .. i, b \in 1 .. i}
Progs == [nin : {1}, ops : {o \in [1 .. N -> UNION {InsChoices(i) : i \in 1 .. N}] : \A i \in 1 .. N : o[i] \in InsChoices(i)}]
Miss(p, i) == Cardinality({k \in 1 .. Len(p.ops[i].ins) : p.ops[i].ins[k] > p.nin})
Asc(S) == LET RECURSIVE G(_)
              G(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE x \in T : \A y \in T : x <= y IN <<m>> \o G(T \ {m})
          IN G(S)
Item(k, i) == [k |-> k, i |-> i]
Init == \E q \in Progs, outs \in UNION {[1 .. k -> 1 .. N + 1] : k \in 0 .. MaxOuts} :
  LET p == [nin |-> 1, ops |-> [i \in 1 .. N |-> [ins |-> q.ops[i], nout |-> 1, noimpl |-> FALSE]], outs |-> outs] IN
  /\ DInit(p, <<[t |-> "in"]>>)
  /\ async \in SUBSET (1 .. N) /\ failing \in 0 .. N
  /\ missing = [i \in 1 .. N |-> Miss(p, i)]
  /\ queue = LET a == Asc({i \in 1 .. N : Miss(p, i) = 0}) IN [j \in 1 .. Len(a) |-> Item("op", a[j])]
  /\ running = {} /\ left = [v \in 1 .. N + 1 |-> Uses(p, v)]
  /\ env = {1} /\ erred = FALSE
Val(i) == [t |-> "op", i |-> i, a |-> Args(i)]
\* taking an operation from the queue reads its inputs from the environment
Take == /\ over = "no" /\ queue # <<>> /\ Head(queue).k = "op" /\ ~(\E i \in running : i \notin async)
        /\ LET i == Head(queue).i IN
           /\ Start(i, Args(i)) /\ running' = running \cup {i}
           /\ \A k \in 1 .. Len(prog.ops[i].ins) : prog.ops[i].ins[k] \in env  \* else KeyError
        /\ queue' = Tail(queue) /\ UNCHANGED <<async, failing, missing, left, env, erred>>
Count(i, v) == Cardinality({k \in 1 .. Len(prog.ops[i].ins) : prog.ops[i].ins[k] = v})
Finish(i) ==
  /\ i \in running /\ running' = running \ {i} /\ UNCHANGED <<async, failing>>
  /\ IF i = failing
     THEN /\ Fail(i) /\ erred' = TRUE /\ UNCHANGED <<missing, left, env>>
          /\ queue' = IF erred THEN queue ELSE Append(queue, Item("err", i))
     ELSE /\ End(i, <<Val(i)>>) /\ UNCHANGED erred
          /\ IF erred THEN UNCHANGED <<missing, queue, left, env>>
             ELSE LET o == FirstOut(i)
                      m == [j \in 1 .. N |-> missing[j] - Count(j, o)]
                      new == Asc({j \in 1 .. N : m[j] = 0 /\ missing[j] > 0})
                      lf == [v \in 1 .. N + 1 |-> left[v] - Count(i, v)]
                      q == queue \o [j \in 1 .. Len(new) |-> Item("op", new[j])]
                      fin == \A j \in Ops : j = i \/ st[j] = "done"
                  IN /\ missing' = m /\ left' = lf
                     /\ env' = (env \cup {o}) \ {v \in 1 .. N + 1 : left[v] > 0 /\ lf[v] = 0}
                     /\ queue' = IF fin THEN Append(q, Item("end", 0)) ELSE q
Close == /\ over = "no" /\ queue # <<>> /\ ~(\E i \in running : i \notin async)
         /\ \/ Head(queue).k = "end" /\ Return([k \in 1 .. Len(prog.outs) |-> val[prog.outs[k]].v])
            \/ Head(queue).k = "err" /\ Raise(Head(queue).i)
         /\ queue' = Tail(queue) /\ UNCHANGED <<async, failing, missing, running, left, env, erred>>
Next == Take \/ Close \/ \E i \in Ops : Finish(i)
Spec == Init /\ [][Next]_vars
\* sequential evaluation
RECURSIVE SeqVal(_, _)
SeqVal(p, v) == IF v = 1 THEN [t |-> "in"] ELSE [t |-> "op", i |-> v - 1, a |-> [k \in 1 .. Len(p.ops[v - 1].ins) |-> SeqVal(p, p.ops[v - 1].ins[k])]]
Same == \A v \in DOMAIN val : val[v].k = "val" => val[v].v = SeqVal(prog, v)
\* what is still needed is still there, whenever nothing has failed
Kept == (over = "no" /\ ~erred) =>
   /\ \A i \in Ops : st[i] = "todo" => \A k \in 1 .. Len(prog.ops[i].ins) : LET v == prog.ops[i].ins[k] IN val[v].k = "val" => v \in env
   /\ (\A i \in Ops : st[i] = "done") => \A k \in 1 .. Len(prog.outs) : prog.outs[k] \in env
\* nothing is left to do only once the evaluation is over
Ends == (~ENABLED Next) => over # "no"
Outcome == over = "returned" => failing = 0
=============================================================================
