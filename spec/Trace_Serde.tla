------------------------------- MODULE Trace_Serde ------------------------------
(* Recorded histories of writing and reading with the real code. A term       *)
(* carries its structure (kind k, atom a, parts kids); forms f: text with and *)
(* without compression, base64 of both, container.                            *)
(*   write o f x t det   object o, whose term is t, was written as bytes x;   *)
(*                       det: a form that has no time stamps                  *)
(*   read  f x t         bytes x were read as t                               *)
(*   short f x t n       the first n bytes were read as t                     *)
(*   alien f x t         x with a foreign tag or reference was read as t      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, written
tv == <<tid, l, written>>
T == Traces[tid]
Init == tid \in 1 .. Len(Traces) /\ l = 1 /\ written = {}
E == T.ev[l]
\* the values of a registered class, of an array or of a scalar count as leaves
RECURSIVE Same(_, _)
Same(a, b) == /\ a.k = b.k /\ a.a = b.a /\ Len(a.kids) = Len(b.kids)
              /\ \A i \in 1 .. Len(a.kids) : Same(a.kids[i], b.kids[i])
Step ==
  /\ l <= Len(T.ev) /\ l' = l + 1 /\ UNCHANGED tid
  /\ CASE E.e = "write" ->
            /\ \A w \in written : w.f = E.f /\ w.x = E.x => Same(w.t, E.t)
            /\ E.det => \A w \in written : w.f = E.f /\ w.o = E.o => w.x = E.x
            /\ written' = written \cup {[o |-> E.o, f |-> E.f, x |-> E.x, t |-> E.t]}
       [] E.e = "read" ->
            /\ \E w \in written : w.f = E.f /\ w.x = E.x /\ Same(w.t, E.t)
            /\ UNCHANGED written
       [] E.e \in {"short", "alien"} -> E.t.k = "error" /\ UNCHANGED written
Next == Step
TraceSpec == Init /\ [][Next]_tv
Accept == /\ (l = Len(T.ev) + 1) => PrintT("@" \o ToJson([acc |-> tid]))
          /\ (IOEnv.TRACE_DIAG = "1") => PrintT("@" \o ToJson([at |-> l]))
=============================================================================
