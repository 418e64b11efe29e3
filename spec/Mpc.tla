---------------------------------- MODULE Mpc ----------------------------------
(* What protocols between parties compute: oblivious transfer, vector oblivious  *)
(* linear evaluation, set intersection, permutations, sums by group.             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
RangeOf(s) == {s[i] : i \in DOMAIN s}
(* Elements of a field of 2^n: the exponents of their bits. Its modulus is       *)
(* x^n + Low(n).                                                                 *)
Low(n) == IF n = 128 THEN {0, 1, 2, 7} ELSE {0, 1}
FAdd(a, b) == (a \ b) \cup (b \ a)
FShift(a, n) == LET s == {i + 1 : i \in a} IN IF n \in s THEN FAdd(s \ {n}, Low(n)) ELSE s
Down(n) == [i \in 1 .. n |-> n - i]
FMul(a, b, n) == FoldLeft(LAMBDA acc, i : IF i \in b THEN FAdd(FShift(acc, n), a) ELSE FShift(acc, n), {}, Down(n))
(* Oblivious transfer: what each side gets *)
Chosen(m0, m1, c) == [i \in DOMAIN c |-> IF c[i] = 0 THEN m0[i] ELSE m1[i]]
(* VOLE: sender v, u; receiver w, d *)
Correlated(v, w, u, d, n) == \A i \in DOMAIN v : w[i] = FAdd(v[i], FMul(u[i], d, n))
(* Set intersection: for each item of b, is it in a? *)
Membership(a, b) == LET s == RangeOf(a) IN [i \in DOMAIN b |-> IF b[i] \in s THEN 1 ELSE 0]
(* Equal inputs and only those have equal results *)
Injective(x, y, a, b) == \A i \in DOMAIN x : x[i] = y[i] <=> a[i] = b[i]
(* out[i] comes from position p[i] (positions from 0) *)
Permuted(d, p) == [i \in DOMAIN p |-> d[p[i] + 1]]
(* Rows <<group, value, how many>>; a sum for each group 0 .. k - 1 *)
Total(rows) == FoldLeft(LAMBDA acc, r : acc + r[2] * r[3], 0, rows)
GroupSums(rows, k) == [g \in 1 .. k |-> Total(SelectSeq(rows, LAMBDA r : r[1] = g - 1))]
(* Values by slot <<slot, value>>, and the sum of listed slots *)
ValueAt(x, p) == IF \E e \in RangeOf(x) : e[1] = p THEN (CHOOSE e \in RangeOf(x) : e[1] = p)[2] ELSE 0
SumOf(x, ps) == FoldLeft(LAMBDA acc, p : acc + ValueAt(x, p), 0, ps)
(* Layers of the bitonic network on n = 2^k positions: distances of stage s      *)
Bit(i, d) == (i \div d) % 2
Partner(i, d) == IF Bit(i, d) = 0 THEN i + d ELSE i - d
Rising(i, s) == (i \div 2^(s + 1)) % 2 = 0
Swaps(cur, i, d, s) == IF Rising(i, s) THEN cur[i] > cur[i + d] ELSE cur[i] < cur[i + d]
Layer(x, cur, d, s) ==        \* x after the switches that sort cur
  [i \in DOMAIN x |-> LET lo == IF Bit(i, d) = 0 THEN i ELSE i - d IN IF Swaps(cur, lo, d, s) THEN x[Partner(i, d)] ELSE x[i]]
================================================================================
