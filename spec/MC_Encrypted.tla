----------------------------- MODULE MC_Encrypted ------------------------------
(* Schemes as implemented, over small rings: every value is kept as the plain    *)
(* one (what it means) and as the representation the code works with.            *)
(*  slots  ciphertexts, or the empty ciphertext that stands for zero ("none")    *)
(*  sums   additive encryption of integers as residues                           *)
(*  points a cyclic group, the identity has no representation as a point         *)
(* Bug: "NoSub" the empty ciphertext is not known to subtraction; "NoMul";       *)
(* "NoCancel" a sum that is the identity is computed as a point; "Residue"       *)
(* decryption gives residues; "WrongSwap" the plain minuend is not negated.      *)
EXTENDS Encrypted
CONSTANTS T, G, MaxOps, Bug
VARIABLES sl, su, pt, n, failed
vars == <<sl, su, pt, n, failed>>
Z == -(T \div 2) .. T \div 2
Dom == {<<0, 0>>, <<1, 0>>}
Vecs == [Dom -> Z]
None == <<>>
ZeroV == [p \in Dom |-> 0]
(* a plain vector with its encryption *)
Enc(v) == [v |-> v, c |-> <<v>>, none |-> FALSE]
Empty == [v |-> ZeroV, c |-> <<>>, none |-> TRUE]
Broken == [v |-> ZeroV, c |-> <<[p \in Dom |-> 99]>>, none |-> FALSE]
Dec(x) == IF x.none THEN ZeroV ELSE x.c[1]
ZeroResult(r) == IF r = ZeroV THEN Empty.c ELSE <<r>>
(* ciphertext with ciphertext *)
Add(a, b) == LET v == SlotsAdd(a.v, b.v, T) IN
  IF a.none THEN [b EXCEPT !.v = v] ELSE IF b.none THEN [a EXCEPT !.v = v]
  ELSE LET r == SlotsAdd(a.c[1], b.c[1], T) IN [v |-> v, c |-> ZeroResult(r), none |-> r = ZeroV]
Neg(c) == SlotsSub(ZeroV, c, T)
Sub(a, b) == LET v == SlotsSub(a.v, b.v, T) IN
  IF Bug = "NoSub" /\ (a.none \/ b.none) THEN [Broken EXCEPT !.v = v]
  ELSE IF b.none THEN [a EXCEPT !.v = v]
  ELSE IF a.none THEN [v |-> v, c |-> <<Neg(b.c[1])>>, none |-> FALSE]
  ELSE LET r == SlotsSub(a.c[1], b.c[1], T) IN [v |-> v, c |-> ZeroResult(r), none |-> r = ZeroV]
Mul(a, b) == LET v == SlotsMul(a.v, b.v, T) IN
  IF a.none \/ b.none THEN IF Bug = "NoMul" THEN [Broken EXCEPT !.v = v] ELSE [Empty EXCEPT !.v = v]
  ELSE [v |-> v, c |-> <<SlotsMul(a.c[1], b.c[1], T)>>, none |-> FALSE]
(* with a plain vector *)
AddP(a, p) == LET v == SlotsAdd(a.v, p, T) IN [v |-> v, c |-> <<IF a.none THEN p ELSE SlotsAdd(a.c[1], p, T)>>, none |-> FALSE]
PSub(p, a) == LET v == SlotsSub(p, a.v, T)  neg == IF Bug = "WrongSwap" THEN a.c[1] ELSE Neg(a.c[1])
              IN [v |-> v, c |-> <<IF a.none THEN p ELSE SlotsAdd(neg, p, T)>>, none |-> FALSE]
MulP(a, p) == LET v == SlotsMul(a.v, p, T) IN
  IF a.none \/ p = ZeroV THEN [Empty EXCEPT !.v = v] ELSE [v |-> v, c |-> <<SlotsMul(a.c[1], p, T)>>, none |-> FALSE]
Swap(a) == [a EXCEPT !.v = SlotsSwap(@), !.c = IF a.none THEN <<>> ELSE <<SlotsSwap(a.c[1])>>]
(* integers as residues: [v, c] *)
DecI(c) == IF Bug = "Residue" THEN c % T ELSE Centre(c, T)
(* points: v an exponent, p a point (an exponent that is not 0) or none *)
PAdd(a, b) == LET v == (a.v + b.v) % G IN
  IF a.p = None THEN [v |-> v, p |-> b.p] ELSE IF b.p = None THEN [v |-> v, p |-> a.p]
  ELSE IF (a.p[1] + b.p[1]) % G = 0 THEN [v |-> v, p |-> IF Bug = "NoCancel" THEN <<0>> ELSE None] ELSE [v |-> v, p |-> <<(a.p[1] + b.p[1]) % G>>]
PMul(a, k) == LET v == (a.v * k) % G IN [v |-> v, p |-> IF k % G = 0 \/ a.p = None THEN None ELSE <<(a.p[1] * k) % G>>]
PNeg(a) == PMul(a, G - 1)
Init == /\ sl = {Enc(v) : v \in {[p \in Dom |-> IF p[1] = 0 THEN 1 ELSE 0], [p \in Dom |-> IF p[1] = 0 THEN -1 ELSE 1]}}
        /\ su = {[v |-> x, c |-> x % T] : x \in {0, 1, -1}}
        /\ pt = {[v |-> 1, p |-> <<1>>]} /\ n = 0 /\ failed = FALSE
Step ==
  \/ \E a, b \in sl : sl' = sl \cup {Add(a, b)} \/ sl' = sl \cup {Sub(a, b)} \/ sl' = sl \cup {Mul(a, b)}
  \/ \E a \in sl, p \in {ZeroV, [q \in Dom |-> q[1]], [q \in Dom |-> -1]} : sl' = sl \cup {AddP(a, p)} \/ sl' = sl \cup {PSub(p, a)} \/ sl' = sl \cup {MulP(a, p)} \/ sl' = sl \cup {Swap(a)}
Next == /\ n < MaxOps /\ n' = n + 1
        /\ \/ /\ Step /\ UNCHANGED <<su, pt>>
           \/ /\ \E a, b \in su, k \in Z : \/ a.v + b.v \in Z /\ su' = su \cup {[v |-> a.v + b.v, c |-> (a.c + b.c) % T]}
                                           \/ a.v * k \in Z /\ su' = su \cup {[v |-> a.v * k, c |-> (a.c * k) % T]}
              /\ UNCHANGED <<sl, pt>>
           \/ /\ \E a, b \in pt, k \in 0 .. G : pt' = pt \cup {PAdd(a, b)} \/ pt' = pt \cup {PAdd(a, PNeg(b))} \/ pt' = pt \cup {PMul(a, k)}
              /\ UNCHANGED <<sl, su>>
        /\ UNCHANGED failed
Spec == Init /\ [][Next]_vars
Slots == \A x \in sl : Dec(x) = x.v
Sums == \A x \in su : DecI(x.c) = x.v
Points == \A x \in pt : x.p = IF x.v = 0 THEN None ELSE <<x.v>>
================================================================================
