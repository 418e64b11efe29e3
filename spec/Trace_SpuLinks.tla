---------------------------- MODULE Trace_SpuLinks -----------------------------
(* Recorded cases: a cluster (ids, kinds, members, cfgs: settings), requests     *)
(* (operations on device values, ok, phase, res: what the parties hold for every *)
(* result), and events of kernels: c, kid: which request and which of its        *)
(* kernels; r: the worker;                                                       *)
(*   kernel  ps: the parties of its region        link  pos, n, cfg of the engine*)
(*   send, recv  peer, key (a number for from, to and text), m: content          *)
(*   other   any other message: r, peer, key                                     *)
EXTENDS Devices, SpuLinks, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, cur, ms
tv == <<tid, l, cur, ms>>
T == Traces[tid]
R == T.reqs[l]
Init == tid \in 1 .. Len(Traces) /\ l = 1 /\ cur = <<>> /\ ms = <<>>
Operation == /\ l <= Len(T.reqs) /\ Len(ms) < Len(R.ops)
             /\ LET m == Meaning(T, cur, R.ops[Len(ms) + 1])
                IN ms' = Append(ms, m) /\ cur' = cur \o [j \in DOMAIN m.out |-> [d |-> m.dev, v |-> m.out[j]]]
             /\ UNCHANGED <<tid, l>>
Values == /\ R.ok /\ Len(R.res) = Len(cur)
          /\ \A j \in DOMAIN cur : LET x == R.res[j] IN
               /\ x.v = cur[j].v
               /\ IF Kind(T, cur[j].d) = "SPU" THEN x.kind = "shares" ELSE x.kind = "plain"
               /\ Range(x.ranks) = Ranks(T, cur[j].d)
(* The devices of the request's kernels, in order *)
RECURSIVE KDevs(_)
KDevs(k) == IF k > Len(ms) THEN <<>>
            ELSE (IF Computes(T, R.ops[k], ms[k].dev) /\ Kind(T, ms[k].dev) = "SPU" THEN <<ms[k].dev>> ELSE <<>>) \o KDevs(k + 1)
Kernels(ds) ==
  LET ev == T.ev
      mine == {i \in DOMAIN ev : ev[i].c = l}
      Of(k, r, kind) == {i \in mine : ev[i].kid = k /\ ev[i].r = r /\ ev[i].k = kind}
      sends == {i \in DOMAIN ev : ev[i].k = "send"}
  IN /\ Len(ds) = R.kernels
     /\ \A k \in DOMAIN ds : LET ps == Ranks(T, ds[k]) IN
          /\ {ev[i].r : i \in {i \in mine : ev[i].kid = k}} = ps
          /\ \A r \in ps :
               /\ \A i \in Of(k, r, "kernel") : Range(ev[i].ps) = ps
               /\ Cardinality(Of(k, r, "link")) = 1
               /\ \A i \in Of(k, r, "link") : ev[i].pos = Place(ps, r) /\ ev[i].n = Cardinality(ps) /\ ev[i].cfg = T.cfgs[At(T, ds[k])]
               /\ {ev[i].peer : i \in Of(k, r, "send")} = Others(ps, r) /\ {ev[i].peer : i \in Of(k, r, "recv")} = Others(ps, r)
               \* what is received was sent by this kernel at the peer
               /\ \A i \in Of(k, r, "recv") : \E j \in Of(k, ev[i].peer, "send") : ev[j].peer = r /\ ev[j].key = ev[i].key /\ ev[j].m = ev[i].m
          \* and nothing else has the same key while requests run at the same time
     /\ \A i \in mine : ev[i].k = "send" =>
          \A j \in DOMAIN ev : (ev[j].key = ev[i].key /\ ev[j].k # "recv" /\ j # i) => ev[j].k = "send" /\ (T.together => ev[j].c = l)
Request == /\ l <= Len(T.reqs) /\ Len(ms) = Len(R.ops)
           /\ (Values /\ Kernels(KDevs(1))) = TRUE
           /\ l' = l + 1 /\ cur' = <<>> /\ ms' = <<>> /\ UNCHANGED tid
TraceSpec == Init /\ [][Operation \/ Request]_tv
Accept == /\ (l = Len(T.reqs) + 1) => PrintT("@" \o ToJson([acc |-> tid]))
          /\ (IOEnv.TRACE_DIAG = "1") => PrintT("@" \o ToJson([at |-> l]))
================================================================================
