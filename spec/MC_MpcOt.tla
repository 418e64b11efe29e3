------------------------------- MODULE MC_MpcOt -------------------------------
(* Oblivious transfer and VOLE, step by step, over small groups and fields:      *)
(* np: Naor-Pinkas in a group of order Q (points by their exponents); iknp: its  *)
(* extension with K columns and N rows; gilboa: VOLE from transfers, in a field  *)
(* of 2^F; expand: longer VOLE from a short one.                                 *)
EXTENDS Mpc
CONSTANTS Q, K, N, F, Bug
VARIABLES kind, pc, s
vars == <<kind, pc, s>>
El == SUBSET (0 .. F - 1)
Bits == {0, 1}
Xor(a, b) == (a + b) % 2
Init == /\ kind \in {"np", "iknp", "gilboa", "expand"} /\ pc = 0 /\ s = <<>>
Step(k, p) == kind = k /\ pc = p /\ pc' = p + 1 /\ UNCHANGED kind
(* ------------------------------ Naor-Pinkas --------------------------------- *)
Pk0(c, k, b) == IF b = 0 THEN k ELSE IF Bug = "Plain" THEN 0 ELSE (c - k) % Q
Np0 == Step("np", 0) /\ \E c \in 1 .. Q - 1 : s' = [c |-> c]
Np1 == Step("np", 1) /\ \E b \in Bits, k \in 1 .. Q - 1 :
         /\ (2 * k) % Q # s.c /\ k # s.c          \* negligible: the receiver would hold both keys
         /\ s' = [c |-> s.c, b |-> b, k |-> k, pk |-> Pk0(s.c, k, b)]
Np2 == Step("np", 2) /\ \E r0, r1 \in 1 .. Q - 1 :
         LET pk1 == IF Bug = "SameKey" THEN s.pk ELSE (s.c - s.pk) % Q IN
         s' = [c |-> s.c, b |-> s.b, k |-> s.k, pk |-> s.pk, u |-> <<r0, r1>>, key |-> <<(s.pk * r0) % Q, (pk1 * r1) % Q>>]
Np3 == Step("np", 3) /\ s' = [c |-> s.c, b |-> s.b, k |-> s.k, pk |-> s.pk, u |-> s.u, key |-> s.key,
         got |-> (s.u[IF Bug = "WrongU" THEN 1 ELSE s.b + 1] * s.k) % Q]
NpRight == (kind = "np" /\ pc = 4) => s.got = s.key[s.b + 1]
NpChoice == (kind = "np" /\ pc = 2) => \A b \in Bits : \E k \in 0 .. Q - 1 : Pk0(s.c, k, b) = s.pk
NpMessage == (kind = "np" /\ pc = 4) => (s.u[2 - s.b] * s.k) % Q # s.key[2 - s.b]
(* --------------------------------- extension -------------------------------- *)
Cols == [1 .. K -> [1 .. N -> Bits]]
Col(g, h, r, w) == [i \in 1 .. N |-> Xor(Xor(g[i], IF Bug = "NoMask" THEN 0 ELSE h[i]), r[i])]     \* what the receiver sends for a column
Ik0 == Step("iknp", 0) /\ \E t \in [1 .. K -> Bits], r \in [1 .. N -> Bits] : s' = [t |-> t, r |-> r]
Ik1 == Step("iknp", 1) /\ \E g0, g1 \in Cols :
         s' = [t |-> s.t, r |-> s.r, g0 |-> g0, gs |-> [j \in 1 .. K |-> IF s.t[j] = 0 THEN g0[j] ELSE g1[j]],
               u |-> [j \in 1 .. K |-> Col(g0[j], g1[j], s.r, j)]]
Ik2 == Step("iknp", 2) /\
         s' = [t |-> s.t, r |-> s.r, g0 |-> s.g0, gs |-> s.gs, u |-> s.u,
               rows |-> [i \in 1 .. N |-> [j \in 1 .. K |-> IF s.t[j] = 1 /\ Bug # "NoCorrect" THEN Xor(s.gs[j][i], s.u[j][i]) ELSE s.gs[j][i]]]]
Mine(i) == [j \in 1 .. K |-> s.g0[j][i]]
Other(row) == [j \in 1 .. K |-> Xor(row[j], s.t[j])]
IkRight == (kind = "iknp" /\ pc = 3) => \A i \in 1 .. N : Mine(i) = IF s.r[i] = 0 THEN s.rows[i] ELSE Other(s.rows[i])
IkMessage == (kind = "iknp" /\ pc = 3) => \A i \in 1 .. N : (s.t # [j \in 1 .. K |-> 0]) => Mine(i) # (IF s.r[i] = 1 THEN s.rows[i] ELSE Other(s.rows[i]))
(* the sender, who knows one expansion of every column, cannot exclude any choices *)
IkChoice == (kind = "iknp" /\ pc = 2) => \A r \in [1 .. N -> Bits], j \in 1 .. K :
              \E h \in [1 .. N -> Bits] : (IF s.t[j] = 0 THEN Col(s.gs[j], h, r, j) ELSE Col(h, s.gs[j], r, j)) = s.u[j]
(* ----------------------------------- VOLE ----------------------------------- *)
Power(j) == {IF Bug = "Powers" THEN F - 1 - j ELSE j}
RECURSIVE Sum(_, _)
Sum(f, j) == IF j = F THEN {} ELSE FAdd(f[j], Sum(f, j + 1))
Gi0 == Step("gilboa", 0) /\ \E u, d \in El : s' = [u |-> u, d |-> d]
Gi1 == Step("gilboa", 1) /\ \E v0, v1 \in [0 .. F - 1 -> El] :
         s' = [u |-> s.u, d |-> s.d, v |-> Sum(v0, 0), m |-> [j \in 0 .. F - 1 |-> FAdd(FAdd(v0[j], v1[j]), FMul(s.u, Power(j), F))],
               q |-> [j \in 0 .. F - 1 |-> IF j \in s.d THEN v1[j] ELSE v0[j]]]
Gi2 == Step("gilboa", 2) /\
         s' = [u |-> s.u, d |-> s.d, v |-> s.v, w |-> Sum([j \in 0 .. F - 1 |-> IF j \in s.d \/ Bug = "AllTerms" THEN FAdd(s.q[j], s.m[j]) ELSE s.q[j]], 0)]
GiRight == (kind = "gilboa" /\ pc = 3) => s.w = FAdd(s.v, FMul(s.u, s.d, F))
(* --------------------------------- expansion -------------------------------- *)
Ex0 == Step("expand", 0) /\ \E u1, u2, v1, v2, d \in El :
         s' = [u |-> <<u1, u2>>, v |-> <<v1, v2>>, d |-> d, w |-> <<FAdd(v1, FMul(u1, d, F)), FAdd(v2, FMul(u2, d, F))>>]
Pick(x, m) == FAdd(IF 1 \in m THEN x[1] ELSE {}, IF 2 \in m THEN x[2] ELSE {})
Ex1 == Step("expand", 1) /\ \E m, m2 \in SUBSET {1, 2} :
         /\ m2 = m \/ Bug = "OtherMask"
         /\ s' = [u |-> Pick(s.u, m), v |-> Pick(s.v, m), w |-> Pick(s.w, m2), d |-> s.d]
ExRight == (kind = "expand" /\ pc = 2) => s.w = FAdd(s.v, FMul(s.u, s.d, F))
Next == Np0 \/ Np1 \/ Np2 \/ Np3 \/ Ik0 \/ Ik1 \/ Ik2 \/ Gi0 \/ Gi1 \/ Gi2 \/ Ex0 \/ Ex1
Spec == Init /\ [][Next]_vars
================================================================================
