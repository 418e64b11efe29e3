----------------------------- MODULE Trace_Cluster -----------------------------
(* Descriptions given to the code: how (form), whether it was accepted (ok),     *)
(* and what the cluster says: ranks of every device's members in order (mem) and *)
(* sorted (sorted), node names and endpoints by rank (names, ends), again: it    *)
(* equals what is read from its dictionary, also as text; rest: everything else  *)
(* given (endpoints, settings, version information) is there.                    *)
EXTENDS Cluster, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l
tv == <<tid, l>>
T == Traces[tid]
E == T.ev[l]
Init == tid \in 1 .. Len(Traces) /\ l = 1
D == [nodes |-> E.nodes, devs |-> E.devs]
Sorted(s) == \A i, j \in DOMAIN s : i < j => s[i] < s[j]
Holds ==
  IF E.form = "list" THEN
    /\ Open(D) \/ E.ok = Consistent(D)
    /\ (E.ok /\ Consistent(D)) => /\ E.names = E.nodes /\ Len(E.mem) = Len(E.devs)
                                  /\ \A i \in DOMAIN E.devs : E.mem[i] = RanksOf(D, i) /\ Range(E.sorted[i]) = Range(E.mem[i]) /\ Sorted(E.sorted[i]) /\ Len(E.sorted[i]) = Len(E.mem[i])
                                  /\ E.again /\ E.rest
  ELSE /\ Open(D) \/ E.ok = BuiltOK(D)
       /\ (E.ok /\ BuiltOK(D)) => /\ E.names = [k \in 1 .. Len(E.nodes) |-> E.nodes[Written(D)[k]].name]
                                  /\ \A i \in DOMAIN E.devs : E.mem[i] = [j \in DOMAIN E.devs[i].members |-> E.devs[i].members[j].rank]
                                  /\ E.again /\ E.rest
Advance == l <= Len(T.ev) /\ l' = l + 1 /\ UNCHANGED tid /\ Holds = TRUE
TraceSpec == Init /\ [][Advance]_tv
Accept == /\ (l = Len(T.ev) + 1) => PrintT("@" \o ToJson([acc |-> tid]))
          /\ (IOEnv.TRACE_DIAG = "1") => PrintT("@" \o ToJson([at |-> l]))
================================================================================
