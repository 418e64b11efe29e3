------------------------------ MODULE MC_MpcPerm ------------------------------
(* The switching network for all permutations up to MaxN positions (padded to a  *)
(* power of two), sums by doubling rotations over two rows of H slots, and sums   *)
(* by group from two shares.                                                     *)
EXTENDS Mpc
CONSTANTS MaxN, H, Z, Bug
VARIABLES kind, pc, s
vars == <<kind, pc, s>>
RECURSIVE Pow(_)
Pow(n) == IF n <= 2 THEN 2 ELSE 2 * Pow((n + 1) \div 2)
Perms(n) == {p \in [0 .. n - 1 -> 0 .. n - 1] : \A i, j \in 0 .. n - 1 : p[i] = p[j] => i = j}
Padded(p, n, m) == [i \in 0 .. m - 1 |-> IF i < n THEN p[i] ELSE i]
Dest(p) == IF Bug = "NoInverse" THEN p ELSE [i \in DOMAIN p |-> CHOOSE j \in DOMAIN p : p[j] = i]
PermInit == \E n \in 1 .. MaxN : \E p \in Perms(n) :
              LET m == Pow(n) q == Padded(p, n, m) IN
              s = [n |-> n, p |-> p, m |-> m, cur |-> Dest(q), x |-> [i \in 0 .. m - 1 |-> i], st |-> 0, d |-> 1]
Empty == [i \in 0 .. 2 * H - 1 |-> 0]
(* slots hold how often each of the first values is counted in them *)
RotInit == \E k \in 1 .. 2 * H : s = [k |-> k, step |-> 1, row |-> 1,
              x |-> [p \in 0 .. 2 * H - 1 |-> IF p < k THEN [Empty EXCEPT ![p] = 1] ELSE Empty]]
ShareInit == \E n \in 1 .. 3 : \E d, mask \in [1 .. n -> 0 .. Z - 1], b \in [1 .. n -> 0 .. 1] : s = [n |-> n, d |-> d, mask |-> mask, b |-> b]
Init == pc = 0 /\ kind \in {"perm", "rot", "share"} /\
        (CASE kind = "perm" -> PermInit [] kind = "rot" -> RotInit [] OTHER -> ShareInit)
(* one layer of switches *)
Switch == /\ kind = "perm" /\ s.d > 0 /\ UNCHANGED <<kind, pc>>
          /\ LET up == IF Bug = "AllRising" THEN 100 ELSE s.st
                 f(x) == [i \in DOMAIN x |-> LET lo == IF Bit(i, s.d) = 0 THEN i ELSE i - s.d IN
                            IF (IF up = 100 THEN s.cur[lo] > s.cur[lo + s.d] ELSE Swaps(s.cur, lo, s.d, s.st)) THEN x[Partner(i, s.d)] ELSE x[i]]
                 last == s.d = 1 /\ 2^(s.st + 1) >= s.m IN
             s' = [s EXCEPT !.cur = f(s.cur), !.x = f(s.x), !.d = IF last THEN 0 ELSE IF s.d > 1 THEN s.d \div 2 ELSE 2^(s.st + 1), !.st = IF s.d = 1 THEN s.st + 1 ELSE s.st]
PermRight == (kind = "perm" /\ s.d = 0) => \A i \in 0 .. s.n - 1 : s.x[i] = s.p[i]
(* doubling within the rows *)
RotBy(x, k) == [p \in 0 .. 2 * H - 1 |-> x[((p \div H) * H) + (((p % H) + k) % H)]]
SwapRows(x) == [p \in 0 .. 2 * H - 1 |-> x[(p + H) % (2 * H)]]
Plus(x, y) == [p \in 0 .. 2 * H - 1 |-> [i \in 0 .. 2 * H - 1 |-> x[p][i] + y[p][i]]]
RECURSIVE Doubling(_, _, _)
Doubling(x, k, step) == IF step >= k \/ (Bug = "Floor" /\ 2 * step > k) THEN x ELSE Doubling(Plus(x, RotBy(x, step)), k, 2 * step)
Rotate == /\ kind = "rot" /\ pc = 0 /\ pc' = 1 /\ UNCHANGED kind
          /\ s' = [s EXCEPT !.x = IF s.k <= H THEN Doubling(s.x, s.k, 1)
                                  ELSE Plus(Doubling(s.x, H, 1), Doubling(IF Bug = "NoSwap" THEN s.x ELSE SwapRows(s.x), s.k - H, 1))]
RotRight == (kind = "rot" /\ pc = 1) => s.x[0] = [i \in 0 .. 2 * H - 1 |-> IF i < s.k THEN 1 ELSE 0]
(* the receiver's sums of the permuted masked values, and the helper's of the masks *)
RECURSIVE SumIf(_, _, _)
SumIf(v, P, n) == IF n = 0 THEN 0 ELSE (IF P[n] THEN v[n] ELSE 0) + SumIf(v, P, n - 1)
Before(b, i, j) == b[i] < b[j] \/ (b[i] = b[j] /\ i <= j)
Order(b) == [i \in DOMAIN b |-> CHOOSE j \in DOMAIN b : Cardinality({k \in DOMAIN b : Before(b, k, j)}) = i]
Share == /\ kind = "share" /\ pc = 0 /\ pc' = 1 /\ UNCHANGED kind
         /\ LET o == Order(s.b)
                d0 == [i \in 1 .. s.n |-> (s.d[o[i]] - s.mask[o[i]]) % Z]
                bs == [i \in 1 .. s.n |-> IF Bug = "PermBins" THEN s.b[i] ELSE s.b[o[i]]] IN
            s' = [n |-> s.n, d |-> s.d, mask |-> s.mask, b |-> s.b,
                  out |-> [g \in 0 .. 1 |-> (SumIf(d0, [i \in 1 .. s.n |-> bs[i] = g], s.n) + SumIf(s.mask, [i \in 1 .. s.n |-> s.b[i] = g], s.n)) % Z]]
ShareRight == (kind = "share" /\ pc = 1) => \A g \in 0 .. 1 : s.out[g] = SumIf(s.d, [i \in 1 .. s.n |-> s.b[i] = g], s.n) % Z
Next == Switch \/ Rotate \/ Share
Spec == Init /\ [][Next]_vars
================================================================================
