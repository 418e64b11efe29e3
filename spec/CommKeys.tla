------------------------------ MODULE CommKeys ------------------------------
(***************************************************************************)
(* Message keys of one job (property C04).                                 *)
(*                                                                         *)
(* A message is identified by the logical place it belongs to: the context *)
(* it is exchanged on (path), the pair of parties, and its position among  *)
(* the exchanges of that pair on that context.  Keys are opaque.           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
VARIABLES cnt,   \* [party |-> [<<path, peer>> |-> number of exchanges so far]]
          log    \* set of [path, pair, n, from, to, key]
kvars == <<cnt, log>>

Get(f, x) == IF x \in DOMAIN f THEN f[x] ELSE 0
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
\* the place of party p's next exchange with peer on path
Place(p, path, peer) == [path |-> path, pair |-> {p, peer}, n |-> Get(cnt[p], <<path, peer>>)]
Sender(p, peer, dir) == IF dir = "send" THEN p ELSE peer
Receiver(p, peer, dir) == IF dir = "send" THEN peer ELSE p
Exchange(p, path, peer, dir, key) ==
  LET pl == Place(p, path, peer)
      m == [pl |-> pl, from |-> Sender(p, peer, dir), to |-> Receiver(p, peer, dir), key |-> key]
  IN /\ \A r \in log : \* both ends of one exchange use one key
          (r.pl = pl) => r.key = key
     /\ \A r \in log : \* no other message of that direction uses it
          (r.from = m.from /\ r.to = m.to /\ r.key = key) => r.pl = pl
     /\ log' = log \cup {m}
     /\ cnt' = [cnt EXCEPT ![p] = Put(@, <<path, peer>>, pl.n + 1)]
NoCollision == \A a, b \in log : (a.key = b.key /\ a.from = b.from /\ a.to = b.to) => a.pl = b.pl
SameKey == \A a, b \in log : a.pl = b.pl => a.key = b.key
=============================================================================
