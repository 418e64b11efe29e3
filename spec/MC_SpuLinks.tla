------------------------------ MODULE MC_SpuLinks ------------------------------
(* Workers execute requests at the same time, each a sequence of kernels on      *)
(* devices with overlapping parties; a worker keeps its links under a key. A     *)
(* kernel sends to all others, then receives from all. Mailboxes hold one        *)
(* message per (from, to, tag, number); a send waits while it is occupied.       *)
(* Bug: "NoParties" links are kept without regard to the parties; "NoSetting";   *)
(* "Shared" the links of all requests have the same tag; "Bare" engine messages  *)
(* have no tag of their own, other messages of the program use the same numbers. *)
EXTENDS SpuLinks
CONSTANTS World, Devs, Reqs, Bug        \* Devs: sequence of [ps, s]; Reqs: sequence of sequences of devices (0: a plain message 0 -> 1)
VARIABLES pc,        \* request, rank -> [k: kernel, todo: set of ranks still to send to, await: ranks to hear from]
          links,     \* rank -> set of [req, key, ps, tag, ns: number sent, nr: number received, per peer]
          box,       \* messages under way: [from, to, tag, n, of]
          bad
vars == <<pc, links, box, bad>>
Ranks == 0 .. World - 1
Kern(c, k) == Reqs[c][k]
Parts(d) == IF d = 0 THEN {0, 1} ELSE Devs[d].ps
Mine(c, r, k) == k <= Len(Reqs[c]) /\ r \in Parts(Kern(c, k))
RECURSIVE Skip(_, _, _)
Skip(c, r, k) == IF k > Len(Reqs[c]) \/ Mine(c, r, k) THEN k ELSE Skip(c, r, k + 1)
Start(c, r, k) == LET j == Skip(c, r, k) IN [k |-> j, todo |-> {}, await |-> {}, on |-> FALSE]
Init == /\ pc = [c \in DOMAIN Reqs |-> [r \in Ranks |-> Start(c, r, 1)]]
        /\ links = [r \in Ranks |-> {}] /\ box = {} /\ bad = FALSE
Key(c, d) == <<IF Bug = "Shared" THEN 0 ELSE c, IF Bug = "NoParties" THEN Cardinality(Devs[d].ps) ELSE Devs[d].ps, IF Bug = "NoSetting" THEN 0 ELSE Devs[d].s>>
TagOf(c, d) == IF Bug = "Bare" THEN <<"x">> ELSE Tag(IF Bug = "Shared" THEN 0 ELSE c, IF Bug = "NoParties" THEN {} ELSE Devs[d].ps, Devs[d].s)
LinkOf(c, r, d) == CHOOSE x \in links[r] : x.key = Key(c, d)
(* A kernel (or a plain message, d = 0) begins *)
Begin(c, r) == LET p == pc[c][r]  d == Kern(c, p.k) IN
  /\ p.k <= Len(Reqs[c]) /\ ~p.on
  /\ IF d = 0 THEN /\ pc' = [pc EXCEPT ![c][r] = [@ EXCEPT !.on = TRUE, !.todo = IF r = 0 THEN {1} ELSE {}, !.await = IF r = 1 THEN {0} ELSE {}]]
                   /\ UNCHANGED links
     ELSE LET have == {x \in links[r] : x.key = Key(c, d)}
              new == [key |-> Key(c, d), ps |-> Devs[d].ps, tag |-> TagOf(c, d), ns |-> [q \in Ranks |-> 0], nr |-> [q \in Ranks |-> 0]]
              x == IF have = {} THEN new ELSE CHOOSE y \in have : TRUE
          IN /\ links' = [links EXCEPT ![r] = IF have = {} THEN @ \cup {new} ELSE @]
             /\ pc' = [pc EXCEPT ![c][r] = [@ EXCEPT !.on = TRUE, !.todo = Others(x.ps, r), !.await = Others(x.ps, r)]]
  /\ UNCHANGED <<box, bad>>
Put(m) == ~\E x \in box : x.from = m.from /\ x.to = m.to /\ x.tag = m.tag /\ x.n = m.n
Send(c, r, q) == LET p == pc[c][r]  d == Kern(c, p.k) IN
  /\ p.on /\ q \in p.todo
  /\ LET lk == LinkOf(c, r, d)
         m == [from |-> r, to |-> q, tag |-> IF d = 0 THEN (IF Bug = "Bare" THEN <<"x">> ELSE <<"m", c>>) ELSE lk.tag, n |-> IF d = 0 THEN 0 ELSE lk.ns[q], of |-> <<c, p.k>>]
     IN /\ Put(m) /\ box' = box \cup {m}
        /\ links' = IF d = 0 THEN links ELSE [links EXCEPT ![r] = (@ \ {lk}) \cup {[lk EXCEPT !.ns[q] = @ + 1]}]
        /\ bad' = (bad \/ q \notin Parts(d))
  /\ pc' = [pc EXCEPT ![c][r].todo = @ \ {q}]
Recv(c, r, q) == LET p == pc[c][r]  d == Kern(c, p.k) IN
  /\ p.on /\ p.todo = {} /\ q \in p.await
  /\ LET lk == LinkOf(c, r, d)
         tag == IF d = 0 THEN (IF Bug = "Bare" THEN <<"x">> ELSE <<"m", c>>) ELSE lk.tag
         n == IF d = 0 THEN 0 ELSE lk.nr[q]
     IN \E m \in box : /\ m.from = q /\ m.to = r /\ m.tag = tag /\ m.n = n
                       /\ box' = box \ {m}
                       /\ bad' = (bad \/ m.of # <<c, p.k>>)
                       /\ links' = IF d = 0 THEN links ELSE [links EXCEPT ![r] = (@ \ {lk}) \cup {[lk EXCEPT !.nr[q] = @ + 1]}]
  /\ pc' = [pc EXCEPT ![c][r].await = @ \ {q}]
End(c, r) == /\ pc[c][r].on /\ pc[c][r].todo = {} /\ pc[c][r].await = {}
             /\ pc' = [pc EXCEPT ![c][r] = Start(c, r, pc[c][r].k + 1)] /\ UNCHANGED <<links, box, bad>>
Next == \E c \in DOMAIN Reqs, r \in Ranks : Begin(c, r) \/ End(c, r) \/ \E q \in Ranks : Send(c, r, q) \/ Recv(c, r, q)
Spec == Init /\ [][Next]_vars
Own == ~bad                              \* messages reach only parties of the kernel and only the kernel they are of
Done == \A c \in DOMAIN Reqs, r \in Ranks : pc[c][r].k > Len(Reqs[c])
Ends == Done \/ ENABLED Next             \* nothing waits for ever
Clean == Done => box = {}
D1 == <<[ps |-> {0, 1}, s |-> 1], [ps |-> {0, 2}, s |-> 1], [ps |-> {0, 1}, s |-> 2]>>
R1 == <<<<1, 2, 0, 1, 3>>, <<0, 2, 1>>>>
R2 == <<<<1, 1>>, <<2, 1>>, <<3>>>>
R3 == <<<<1, 2>>, <<1, 2>>>>
R4 == <<<<1, 2, 0, 3>>, <<2, 0, 1>>, <<3, 1>>>>
================================================================================
