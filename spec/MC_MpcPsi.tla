------------------------------ MODULE MC_MpcPsi ------------------------------
(* Set intersection from a VOLE and a linear key-value store, in a field of 2^F: *)
(* the store has M cells; an item's value is the sum of its cells.               *)
EXTENDS Mpc
CONSTANTS F, M, Items, Bug
VARIABLES pc, s
vars == <<pc, s>>
El == SUBSET (0 .. F - 1)
Cells == 1 .. M
Store == [Cells -> El]
(* cells of items, and their hashes: fixed, any will do *)
CellsOf(x) == {c \in Cells : (x \div 2^(c - 1)) % 2 = 1}
Hash(x) == {i \in 0 .. F - 1 : ((3 * x + 1) \div 2^i) % 2 = 1}
RECURSIVE SumCells(_, _)
SumCells(st, cs) == IF cs = {} THEN {} ELSE LET c == CHOOSE c \in cs : TRUE IN FAdd(st[c], SumCells(st, cs \ {c}))
Decode(st, x) == SumCells(st, CellsOf(x))
Init == pc = 0 /\ s = <<>>
(* the receiver's items; a store that decodes to their hashes (if there is none, other cells are tried) *)
Encode == pc = 0 /\ pc' = 1 /\ \E y \in SUBSET Items, p \in Store :
            /\ (\A i \in y : Decode(p, i) = Hash(i)) /\ s' = [y |-> y, p |-> p]
Vole == pc = 1 /\ pc' = 2 /\ \E u, v \in Store, d \in El :
          s' = [y |-> s.y, v |-> v, d |-> d, w |-> [c \in Cells |-> FAdd(v[c], FMul(u[c], d, F))],
                q |-> [c \in Cells |-> IF Bug = "NoMask" THEN s.p[c] ELSE FAdd(s.p[c], u[c])], p |-> s.p]
Tag(st, x) == FAdd(Decode(st, x), IF Bug = "NoHash" THEN {} ELSE FMul(Hash(x), s.d, F))
Tags == pc = 2 /\ pc' = 3 /\ \E x \in SUBSET Items :
          LET st == [c \in Cells |-> FAdd(FMul(s.q[c], s.d, F), s.w[c])] IN
          s' = [y |-> s.y, x |-> x, v |-> s.v, d |-> s.d, p |-> s.p, tags |-> {Tag(st, i) : i \in x}]
Next == Encode \/ Vole \/ Tags
Spec == Init /\ [][Next]_vars
Found(i) == Decode(s.v, i) \in s.tags
Members == pc = 3 => \A i \in s.y \cap s.x : Found(i)
(* other items are found only if values collide: one chance in 2^F for each pair *)
Collide(i, j) == FMul(FAdd(Decode(s.p, j), Hash(j)), s.d, F) = FAdd(Decode(s.v, i), Decode(s.v, j))
Others == pc = 3 => \A i \in s.y \ s.x : Found(i) => \E j \in s.x : Collide(i, j)
================================================================================
