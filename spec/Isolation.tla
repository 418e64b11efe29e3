------------------------------ MODULE Isolation --------------------------------
(* Several requests over the same mailboxes.  Every request has an identifier  *)
(* chosen by a caller; its parties derive the contexts of their communication  *)
(* from it (the root, and children for nested evaluations), and the keys of    *)
(* messages from the context and a counter per context.  A message is found by *)
(* its sender and its key only.                                                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Chars,        \* the characters of identifiers: includes those the derivation uses itself
          MaxLen,       \* of identifiers
          Escape,       \* are the special characters of identifiers escaped?
          NP, MaxSteps  \* parties; messages per request
P == 0 .. NP - 1
Ids == UNION {[1 .. n -> Chars] : n \in 1 .. MaxLen}
RECURSIVE Esc(_)
CodeOf(c) == IF Escape THEN (IF c = "." THEN <<"%", "d">> ELSE IF c = ":" THEN <<"%", "c">> ELSE IF c = "%" THEN <<"%", "p">> ELSE <<c>>) ELSE <<c>>
Esc(s) == IF s = <<>> THEN <<>> ELSE CodeOf(Head(s)) \o Esc(Tail(s))
Digit(n) == IF n = 0 THEN "0" ELSE "1"
Paths == {<<>>, <<0>>, <<1>>}                                            \* the root or one of its children
Ctx(id, path) == IF path = <<>> THEN Esc(id) ELSE Esc(id) \o <<".", Digit(path[1])>>
Key(id, path, n) == Ctx(id, path) \o <<":", Digit(n)>>
\* ------------------------------------------------------------ static part
KeysDistinct == \A a, b \in Ids : a # b => \A p, q \in Paths : \A m, n \in 0 .. 1 : Key(a, p, m) # Key(b, q, n)
\* ----------------------------------------------------------- dynamic part
\* two requests, each a sequence of messages [f, t, path]; every party performs its part in order and may stop anywhere
CONSTANTS PickIds       \* the pairs of identifiers to try
R == {1, 2}
Msg == {m \in [f : P, t : P, path : {<<>>, <<0>>}] : m.f # m.t}
Plans == UNION {[1 .. n -> Msg] : n \in 1 .. MaxSteps}
VARIABLES id, plan, pc, box, got, dead
vars == <<id, plan, pc, box, got, dead>>
Mine(r, p, i) == p \in {plan[r][i].f, plan[r][i].t}
RECURSIVE NextPc(_, _, _)
NextPc(r, p, from) == IF from > Len(plan[r]) THEN from ELSE IF Mine(r, p, from) THEN from ELSE NextPc(r, p, from + 1)
\* the counter of the context between these two parties: earlier messages of the same pair, direction and context
Count(r, i) == Cardinality({j \in 1 .. i - 1 : plan[r][j].path = plan[r][i].path /\ plan[r][j].f = plan[r][i].f /\ plan[r][j].t = plan[r][i].t})
KeyOf(r, i) == Key(id[r], plan[r][i].path, Count(r, i))
Init == /\ id \in PickIds /\ plan \in [R -> Plans]
        /\ box = {} /\ got = {} /\ dead = {} /\ pc = [x \in R \X P |-> NextPc(x[1], x[2], 1)]
Adv(r, p) == pc' = [pc EXCEPT ![<<r, p>>] = NextPc(r, p, pc[<<r, p>>] + 1)]
Send(r, p) == LET i == pc[<<r, p>>] IN
              /\ i <= Len(plan[r]) /\ plan[r][i].f = p /\ <<r, p>> \notin dead
              /\ box' = box \cup {[f |-> p, t |-> plan[r][i].t, key |-> KeyOf(r, i), val |-> <<r, i>>]}
              /\ Adv(r, p) /\ UNCHANGED <<id, plan, got, dead>>
Recv(r, p) == LET i == pc[<<r, p>>] IN
              /\ i <= Len(plan[r]) /\ plan[r][i].t = p /\ <<r, p>> \notin dead
              /\ \E m \in box : /\ m.t = p /\ m.f = plan[r][i].f /\ m.key = KeyOf(r, i)
                                /\ box' = box \ {m} /\ got' = got \cup {<<r, i, m.val>>}
              /\ Adv(r, p) /\ UNCHANGED <<id, plan, dead>>
Die(r, p) == r = 1 /\ <<r, p>> \notin dead /\ dead' = dead \cup {<<r, p>>} /\ UNCHANGED <<id, plan, pc, box, got>>
Next == \E r \in R, p \in P : Send(r, p) \/ Recv(r, p) \/ Die(r, p)
Fair == \A r \in R, p \in P : WF_vars(Send(r, p)) /\ WF_vars(Recv(r, p))
Spec == Init /\ [][Next]_vars /\ Fair
NoCrossTalk == \A g \in got : g[3] = <<g[1], g[2]>>
\* whatever happens to request 1, request 2 ends as it would alone
SecondEnds == <>(\A p \in P : pc[<<2, p>>] > Len(plan[2]))
=============================================================================
