-------------------------------- MODULE Store --------------------------------
(* What a user may rely on: references are either in memory or persistent and *)
(* each holds at most one value. Under(a, b): the key of b lies beneath the   *)
(* key of a (a file cannot also be a directory: such a pair cannot both be    *)
(* stored, storing the second is refused).                                    *)
EXTENDS Naturals, FiniteSets, Sequences
None == 0
Put(st, r, v) == [st EXCEPT ![r] = v]
Drop(st, r) == [st EXCEPT ![r] = None]
Listed(st, rs) == {r \in rs : st[r] # None}
\* closing forgets what is in memory, and nothing else
Closed(st, mem) == [r \in DOMAIN st |-> IF r \in mem THEN None ELSE st[r]]
=============================================================================
