------------------------------- MODULE Tables -------------------------------
(* Tables in batches (mplang/backends/table_impl.py). A source holds the rows *)
(* 1..n, divided into chunks that nobody chose. A reader with a batch size b  *)
(* returns them in batches; several readers side by side feed a writer.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
\* rows first..last, as runs
Rows(first, last) == IF first > last THEN <<>> ELSE <<<<first, last>>>>
\* what reading with batch size b returns when the first pos rows of n are gone
NextBatch(n, b, pos) == Rows(pos + 1, Min(pos + b, n))
\* tables may be written side by side
SameLength(ns) == \A k \in 1 .. Len(ns) : ns[k] = ns[1]
=============================================================================
