------------------------------- MODULE Encrypted -------------------------------
(* The meaning of computing on encrypted values: that of the same operations on  *)
(* plain ones.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Range(s) == {s[i] : i \in DOMAIN s}
(* Residues are read as the numbers closest to zero (t odd)                      *)
Centre(x, t) == LET r == x % t IN IF r > t \div 2 THEN r - t ELSE r
(* Slots: two rows of h columns; vectors as functions on the slots that may not  *)
(* be zero                                                                       *)
At(v, p) == IF p \in DOMAIN v THEN v[p] ELSE 0
SlotsAdd(a, b, t) == [p \in (DOMAIN a) \cup (DOMAIN b) |-> Centre(At(a, p) + At(b, p), t)]
SlotsSub(a, b, t) == [p \in (DOMAIN a) \cup (DOMAIN b) |-> Centre(At(a, p) - At(b, p), t)]
SlotsMul(a, b, t) == [p \in (DOMAIN a) \cap (DOMAIN b) |-> Centre(At(a, p) * At(b, p), t)]
(* Rotating by s: every column takes the value s columns further on              *)
SlotsRot(a, s, h) == [p \in {<<x[1], (x[2] - s) % h>> : x \in DOMAIN a} |-> a[<<p[1], (p[2] + s) % h>>]]
SlotsSwap(a) == [p \in {<<1 - x[1], x[2]>> : x \in DOMAIN a} |-> a[<<1 - p[1], p[2]>>]]
Listed(xs, h) == [p \in {<<(i - 1) \div h, (i - 1) % h>> : i \in DOMAIN xs} |-> xs[p[1] * h + p[2] + 1]]
NonZero(v) == {<<p[1], p[2], v[p]>> : p \in {q \in DOMAIN v : v[q] # 0}}
(* Keys: what they were agreed from. Two keys are the same if and only if these  *)
(* terms are.                                                                    *)
Agreed(a, b) == <<"dh", {a, b}>>
Derived(k, info) == <<"kdf", k, info>>
================================================================================
