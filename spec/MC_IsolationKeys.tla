--------------------------- MODULE MC_IsolationKeys ---------------------------
(* The static part only: different identifiers never share a key. *)
EXTENDS Isolation
Cs == {"a", "0", ".", ":", "%", "d"}
Pairs == {}
ASSUME KeysDistinct
KInit == id = 0 /\ plan = 0 /\ pc = 0 /\ box = 0 /\ got = 0 /\ dead = 0
KNext == UNCHANGED vars
=============================================================================
