----------------------------- MODULE Trace_Tables -----------------------------
(* Recorded reads and writes of real tables; rows are numbered 1..n in the    *)
(* source, what came out is a list of runs <<first, last>> (a row that is not *)
(* one of the source's appears as <<-1, -1>>).                                *)
(*   open  n b      a reader over n rows with batch size b (-1: any sizes)    *)
(*   batch runs     the next batch; end: there was none; rest runs: all       *)
(*                  remaining rows at once                                    *)
(*   write ns fail ok file    tables of ns rows were written side by side;    *)
(*                  fail: something failed underneath; file: "none",          *)
(*                  "partial", "complete" or "before" (what was there)        *)
(*   back ns runs same   what a reader of the file got, per table; same: with *)
(*                  the declared columns and types                            *)
EXTENDS Tables, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, n, b, pos, over
tv == <<tid, l, n, b, pos, over>>
T == Traces[tid]
E == T.ev[l]
Init == tid \in 1 .. Len(Traces) /\ l = 1 /\ n = 0 /\ b = -1 /\ pos = 0 /\ over = FALSE
Whole(k) == Rows(1, k)
Step ==
  /\ l <= Len(T.ev) /\ l' = l + 1 /\ UNCHANGED tid
  /\ CASE E.e = "open" -> n' = E.n /\ b' = E.b /\ pos' = 0 /\ over' = FALSE
       [] E.e = "batch" -> /\ ~over /\ UNCHANGED <<n, b, over>>
                           /\ IF b > 0 THEN E.runs = NextBatch(n, b, pos) /\ E.runs # <<>> /\ pos' = E.runs[1][2]
                              ELSE IF E.runs = <<>> THEN pos' = pos ELSE E.runs = Rows(pos + 1, E.runs[1][2]) /\ E.runs[1][2] <= n /\ pos' = E.runs[1][2]
       [] E.e = "end" -> pos = n /\ over' = TRUE /\ UNCHANGED <<n, b, pos>>
       [] E.e = "rest" -> E.runs = Rows(pos + 1, n) /\ pos' = n /\ UNCHANGED <<n, b, over>>
       [] E.e = "write" -> /\ E.ok = (SameLength(E.ns) /\ ~E.fail)
                           /\ IF E.ok THEN E.file = "complete" ELSE E.file \in {"none", "before"}
                           /\ UNCHANGED <<n, b, pos, over>>
       [] E.e = "back" -> /\ E.same /\ \A k \in 1 .. Len(E.ns) : E.all[k] = Whole(E.ns[k])
                          /\ UNCHANGED <<n, b, pos, over>>
TraceSpec == Init /\ [][Step]_tv
Accept == /\ (l = Len(T.ev) + 1) => PrintT("@" \o ToJson([acc |-> tid]))
          /\ (IOEnv.TRACE_DIAG = "1") => PrintT("@" \o ToJson([at |-> l]))
=============================================================================
