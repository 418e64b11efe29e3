------------------------------ MODULE MC_Tables ------------------------------
(* The accumulating reader over arbitrary chunks, and two of them side by     *)
(* side feeding a writer that may fail at any batch.                          *)
EXTENDS Tables
CONSTANTS MaxRows, MaxChunks, Sizes, Bug
Divisions == {c \in UNION {[1 .. k -> 0 .. 3] : k \in 0 .. MaxChunks} : Sum(c) <= MaxRows}
VARIABLES chunks, b, rd, out, st, file, failAt
vars == <<chunks, b, rd, out, st, file, failAt>>
\* a reader: chunks not yet read, rows of the source already taken, rows kept back, end seen
R(c) == [todo |-> c, at |-> 0, keep |-> 0, eof |-> FALSE]
\* what its source still holds comes after at; keep rows are before at
RECURSIVE Fill(_, _, _)
Fill(r, have, size) ==
  IF have >= size \/ r.todo = <<>> THEN [r |-> [r EXCEPT !.eof = @ \/ have < size], have |-> have]
  ELSE Fill([r EXCEPT !.todo = Tail(@), !.at = @ + Head(r.todo)], have + Head(r.todo), size)
\* <<reader, first row, number of rows>>; number 0: no more
Take(r, size) ==
  IF r.eof THEN [r |-> r, first |-> 0, n |-> 0]
  ELSE LET start == r.at - r.keep
           f == Fill(r, r.keep, size)
           n == Min(f.have, size)
           over == f.have - n
           lastc == IF f.r.at = r.at THEN r.keep ELSE f.r.at - r.at
       IN IF Bug = "FirstChunk" /\ r.keep > 0 /\ f.r.at # r.at THEN [r |-> [f.r EXCEPT !.keep = over], first |-> start + 1, n |-> r.keep]
          ELSE IF Bug = "DropRemainder" THEN [r |-> [f.r EXCEPT !.keep = 0], first |-> start + 1, n |-> n]
          ELSE IF Bug = "EofFirst" /\ f.r.todo = <<>> THEN [r |-> [f.r EXCEPT !.keep = over, !.eof = TRUE], first |-> start + 1, n |-> n]
          ELSE [r |-> [f.r EXCEPT !.keep = over], first |-> start + 1, n |-> n]
Init == /\ chunks \in Divisions \X Divisions /\ b \in Sizes /\ failAt \in 0 .. 2
        /\ rd = <<R(chunks[1]), R(chunks[2])>> /\ out = <<<<>>, <<>>>> /\ st = "reading" /\ file = "partial"
Batch == Len(out[1]) + 1
Step == /\ st = "reading"
        /\ LET t == <<Take(rd[1], b), Take(rd[2], b)>> IN
           /\ rd' = <<t[1].r, t[2].r>>
           /\ IF failAt = Batch THEN st' = "failed" /\ UNCHANGED out
              ELSE IF t[1].n = t[2].n \/ (Bug = "StopEarly" /\ (t[1].n = 0 \/ t[2].n = 0))
              THEN IF t[1].n = 0 \/ t[2].n = 0 THEN st' = "done" /\ UNCHANGED out
                   ELSE st' = st /\ out' = <<Append(out[1], <<t[1].first, t[1].first + t[1].n - 1>>), Append(out[2], <<t[2].first, t[2].first + t[2].n - 1>>)>>
              ELSE st' = "refused" /\ UNCHANGED out
        /\ UNCHANGED <<chunks, b, file, failAt>>
Close == /\ st \in {"failed", "refused", "done"} /\ st' = "closed"
         /\ file' = IF st = "done" THEN "complete" ELSE IF Bug = "CloseWrites" THEN "partial" ELSE "none"
         /\ UNCHANGED <<chunks, b, rd, out, failAt>>
Next == Step \/ Close
Spec == Init /\ [][Next]_vars
N == [k \in 1 .. 2 |-> Sum(chunks[k])]
Concat(bs) == \A k \in 1 .. Len(bs) : bs[k][1] = (IF k = 1 THEN 1 ELSE bs[k - 1][2] + 1)
Ordered == \A k \in 1 .. 2 : Concat(out[k])
Sized == \A k \in 1 .. 2 : \A j \in 1 .. Len(out[k]) : /\ out[k][j][2] - out[k][j][1] + 1 <= b
                                                      /\ (out[k][j][2] - out[k][j][1] + 1 < b => j = Len(out[k]) /\ out[k][j][2] = N[k])
Complete == st = "done" => /\ SameLength(N) /\ \A k \in 1 .. 2 : IF N[k] = 0 THEN out[k] = <<>> ELSE out[k] # <<>> /\ out[k][Len(out[k])][2] = N[k]
Refused == st = "refused" => ~SameLength(N)
NoPartial == st = "closed" => file # "partial"
AsSpecified == \A k \in 1 .. 2 : \A j \in 1 .. Len(out[k]) : <<out[k][j]>> = NextBatch(N[k], b, (j - 1) * b)
=============================================================================
