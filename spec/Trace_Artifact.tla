---------------------------- MODULE Trace_Artifact ----------------------------
(* Recorded histories of one source: how it was compiled, the artifacts that  *)
(* were read, the programs that ran.                                          *)
(*   compile  src [captures, constants, writable], g, ins, outs, ops, ok, f:  *)
(*            the fields of the program; d: its digest is right               *)
(*   unpack   form "plain": an artifact with these fields (as another reader  *)
(*            sees them); "odd": arbitrarily damaged. ok, and in got the      *)
(*            fields of the program that was returned, gotg its graph         *)
(*   run      program gotg with f, ops on nargs arguments and size parties:   *)
(*            ok, did: how much was executed, same: the results are those of  *)
(*            the traced source                                               *)
(* g: the identity of a graph's content; digests: of (the) graph, 0: another, *)
(* -1: none.                                                                  *)
EXTENDS Artifact, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l
tv == <<tid, l>>
T == Traces[tid]
E == T.ev[l]
Init == tid \in 1 .. Len(Traces) /\ l = 1
Same(f, h) == /\ f.ins = h.ins /\ f.outs = h.outs /\ Range(f.codes) = Range(h.codes) /\ f.schema = h.schema /\ f.kind = h.kind /\ f.world = h.world
C == T.ev[1]
Holds ==
  IF E.e = "compile" THEN
       /\ E.ok = Storable(E.src)
       /\ E.ok => Consistent(E.f, E.ins, E.outs, E.ops, E.d = E.g) /\ E.f.world = Needed(E.ops) /\ E.gotg = E.g
  ELSE IF E.e = "unpack" THEN
       IF E.form = "plain"
       THEN /\ E.ok = Consistent(E.f, E.ins, E.outs, E.ops, E.d = -1 \/ E.d = E.g)
            /\ E.ok => E.gotg = E.g /\ Same(E.f, E.got) /\ E.meta
       ELSE E.ok => /\ E.gotg = C.gotg /\ E.got.ins = C.f.ins /\ E.got.outs = C.f.outs /\ Range(E.got.codes) = Range(C.f.codes) /\ E.got.schema = 1 /\ E.got.world \in {-1, C.f.world}
  ELSE IF Runnable(E.f, E.ops, E.nargs, E.kw, E.size) THEN E.ok /\ E.same
       ELSE ~E.ok /\ E.did = 0
Step == l <= Len(T.ev) /\ l' = l + 1 /\ UNCHANGED tid /\ Holds
TraceSpec == Init /\ [][Step]_tv
Accept == /\ (l = Len(T.ev) + 1) => PrintT("@" \o ToJson([acc |-> tid]))
          /\ (IOEnv.TRACE_DIAG = "1") => PrintT("@" \o ToJson([at |-> l]))
=============================================================================
