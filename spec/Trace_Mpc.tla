------------------------------- MODULE Trace_Mpc -------------------------------
(* Recorded runs of protocols: the inputs and outputs of the parties, the pairs  *)
(* of parties that messages went between, and secrets found in messages.         *)
EXTENDS Mpc, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l
tv == <<tid, l>>
C == Traces[tid]
F(x) == [i \in DOMAIN x |-> RangeOf(x[i])]
Between == \A i \in DOMAIN C.routes : RangeOf(C.routes[i]) \subseteq {C.s, C.r}
Ot == /\ C.out = Chosen(C.m0, C.m1, C.c) /\ C.only /\ C.leaks = <<>> /\ Between /\ C.keys <= Len(C.c)
Vole == /\ \A i \in DOMAIN C.lens : C.lens[i] = C.n
        /\ C.only /\ C.given /\ C.leaks = <<>> /\ Between
        /\ Correlated(F(C.v), F(C.w), F(C.u), RangeOf(C.d), 128)
        /\ C.noise <= (IF C.which = "silver" THEN 64 ELSE 0)
        /\ C.same = C.n                                      \* no two positions are masked alike
Prf == Len(C.a) = Len(C.x) /\ Len(C.b) = Len(C.x) /\ Injective(C.x, C.y, C.a, C.b) /\ C.only
Psi == C.out = Membership(C.a, C.b) /\ C.only /\ C.leaks = <<>> /\ Between
Okvs == C.want = C.got /\ C.size /\ C.refused = C.twice
(* every item that has a place is there, where it is looked for, and alone *)
Cuckoo == /\ \A i \in DOMAIN C.items :
             IF C.ok[i] THEN /\ C.pos[i] \in 0 .. C.size - 1 /\ C.at[i] = C.items[i] /\ C.pos[i] \in RangeOf(C.look[i])
                             /\ \A j \in 1 .. i - 1 : C.ok[j] => C.pos[j] # C.pos[i]
             ELSE C.pos[i] = 0 - 1
          /\ C.used = Cardinality({i \in DOMAIN C.ok : C.ok[i]})
          /\ C.ok[1] \/ Len(C.ok) > 1
Field == /\ F(C.mul) = [i \in DOMAIN C.a |-> FMul(RangeOf(C.a[i]), RangeOf(C.b[i]), 128)]
         /\ F(C.add) = [i \in DOMAIN C.a |-> FAdd(RangeOf(C.a[i]), RangeOf(C.b[i]))]
Perm == C.out = Permuted(C.d, C.p) /\ C.only /\ C.leaks = <<>>
Switch == /\ C.y0 = Chosen(C.x0, C.x1, C.c)
          /\ C.y1 = Chosen(C.x1, C.x0, C.c)
Group == C.out = GroupSums(C.data, C.K) /\ C.only /\ C.leaks = <<>>
Agg == /\ Len(C.out) = Len(C.sums)
       /\ \A i \in DOMAIN C.sums : C.out[i] = <<C.sums[i][1], SumOf(C.x, C.sums[i][2])>>
Right == CASE C.kind = "ot" -> Ot [] C.kind = "vole" -> Vole [] C.kind = "prf" -> Prf [] C.kind = "psi" -> Psi
           [] C.kind = "okvs" -> Okvs [] C.kind = "field" -> Field [] C.kind = "cuckoo" -> Cuckoo [] C.kind = "perm" -> Perm [] C.kind = "switch" -> Switch
           [] C.kind = "group" -> Group [] C.kind = "agg" -> Agg [] OTHER -> FALSE
Init == tid \in 1 .. Len(Traces) /\ l = 0
Next == l = 0 /\ Right = TRUE /\ l' = 1 /\ UNCHANGED tid
TraceSpec == Init /\ [][Next]_tv
Accept == /\ (l = 1) => PrintT("@" \o ToJson([acc |-> tid]))
          /\ (IOEnv.TRACE_DIAG = "1") => PrintT("@" \o ToJson([at |-> l]))
================================================================================
