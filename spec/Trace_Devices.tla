----------------------------- MODULE Trace_Devices -----------------------------
(* Recorded cases: a cluster (ids, kinds, members) and groups of operations on  *)
(* device values, executed one after another. A group: c, the context of its    *)
(* sessions (0: the ambient one, for operations executed one by one, whose      *)
(* values persist; other values: one evaluation of a traced program); ops, with *)
(* out (ok, refused, error) and for every result res: dev, ranks, kind (plain,  *)
(* shares), v, got (empty if reading the value gives v); ev: what happened,     *)
(*   msg  r, to, op (clear with v, share with i = <<index, count>>, cipher with *)
(*        its identity, quote, pk, engine, other)                               *)
(*   exec r, op (run, kernel)                                                   *)
(*   op   r, op: a cryptographic step with i, o, v                              *)
EXTENDS Devices, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l,
  env,       \* values of the ambient context
  cur,       \* values the next operation may use
  ms,        \* what the group's operations up to here mean
  hist,      \* cryptographic steps of the ambient context
  nonces     \* of all encryptions
tv == <<tid, l, env, cur, ms, hist, nonces>>
T == Traces[tid]
G == T.groups[l]
Init == /\ tid \in 1 .. Len(Traces) /\ l = 1 /\ env = <<>> /\ cur = <<>> /\ ms = <<>> /\ hist = {} /\ nonces = {}
Evaluated == \A k \in DOMAIN G.ops : G.ops[k].out = "ok"
ResultOK(o, m, j) == LET r == o.res[j] IN
  /\ r.dev = m.dev
  /\ Evaluated => /\ Range(r.ranks) = Ranks(T, m.dev)
                  /\ r.kind = IF Kind(T, m.dev) = "SPU" THEN "shares" ELSE "plain"
                  /\ r.v = m.out[j] /\ r.got = <<>>
OpOK(o, m) == /\ o.out = IF m.ok THEN "ok" ELSE "refused"
              /\ m.ok => Len(o.res) = Len(m.out) /\ \A j \in DOMAIN m.out : ResultOK(o, m, j)
Count(s, P(_)) == Cardinality({i \in DOMAIN s : P(s[i])})
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss).moves \o Flat(Tail(ss))
(* Cryptographic steps of the group, and of its context *)
Own == {G.ev[i] : i \in {i \in DOMAIN G.ev : G.ev[i].k = "op"}}
Steps == IF G.fresh THEN Own ELSE hist \cup Own
New == {e.o[2] : e \in {e \in Own : e.op = "encrypt"}}
Transfers(H, M, done) ==
  LET ev == G.ev
      msgs == SelectSeq(ev, LAMBDA e : e.k = "msg" /\ e.r # e.to)
      enc == SelectSeq(ev, LAMBDA e : e.k = "op" /\ e.op = "encrypt")
      dec == SelectSeq(ev, LAMBDA e : e.k = "op" /\ e.op = "decrypt")
      plain == UNION {Sends(T, M[i]) : i \in DOMAIN M}
      tm == SelectSeq(M, LAMBDA m : Trusted(T, m))
      Most(x) == Count(M, LAMBDA m : x \in Sends(T, m))
      Least(x) == Cardinality({<<M[i].n, M[i].to>> : i \in {i \in DOMAIN M : x \in Sends(T, M[i])}})
      Is(e, x) == e.op = x.op /\ e.r = x.r /\ e.to = x.to /\ e.i = x.i /\ e.v = x.v
      Ends(e, m) == e.r = Owner(T, m.from) /\ e.v = m.v
  IN /\ \A i \in DOMAIN msgs : LET e == msgs[i] IN
          CASE e.op \in {"clear", "share"} -> \E x \in plain : Is(e, x)
            [] e.op = "cipher" -> \E j \in DOMAIN enc : enc[j].r = e.r /\ enc[j].o[1] = e.i[1] /\ \E k \in DOMAIN tm : Ends(enc[j], tm[k]) /\ e.to = Owner(T, tm[k].to)
            [] e.op = "quote" -> \E k \in DOMAIN tm : e.r = TrustedEnd(T, tm[k]) /\ e.to = PlainEnd(T, tm[k]) /\ \E h \in Step(H, e.r, "quote") : h.o = e.i
            [] e.op = "pk" -> \E k \in DOMAIN tm : e.to = TrustedEnd(T, tm[k]) /\ e.r = PlainEnd(T, tm[k]) /\ \E h \in Step(H, e.r, "keygen") : h.o[2] = e.i[1]
            [] e.op = "engine" -> TRUE
            [] OTHER -> FALSE
     /\ \A x \in plain : LET n == Count(msgs, LAMBDA e : Is(e, x)) IN n <= Most(x) /\ (done => n >= Least(x))
     \* every value between a plain and a trusted device is encrypted under a key of that session, and decrypted by the other
     /\ \A j \in DOMAIN enc : \E k \in DOMAIN tm :
          /\ Ends(enc[j], tm[k])
          /\ Session(H, PlainEnd(T, tm[k]), TrustedEnd(T, tm[k]), enc[j].i[1])
          /\ Held(H, enc[j].i[1]) = {PlainEnd(T, tm[k]), TrustedEnd(T, tm[k])}
          /\ (done => \E d \in DOMAIN dec : dec[d].r = Owner(T, tm[k].to) /\ dec[d].i = <<enc[j].i[1], enc[j].o[1]>> /\ dec[d].v = tm[k].v)
     /\ done => \A k \in DOMAIN tm : LET n == Count(enc, LAMBDA e : Ends(e, tm[k])) IN
                     /\ n >= Cardinality({<<tm[i].n, tm[i].to>> : i \in {i \in DOMAIN tm : Owner(T, tm[i].from) = Owner(T, tm[k].from) /\ tm[i].v = tm[k].v}})
     /\ Len(enc) <= Len(tm)
     /\ \A i, j \in DOMAIN enc : i # j => enc[i].o[2] # enc[j].o[2]
     /\ New \cap nonces = {}
Executions(done) ==
  LET ex == SelectSeq(G.ev, LAMBDA e : e.k = "exec")
      en == SelectSeq(G.ev, LAMBDA e : e.k = "msg" /\ e.op = "engine")
      Runs(r, kernel) == Cardinality({k \in DOMAIN ms : ms[k].ok /\ Computes(T, G.ops[k], ms[k].dev) /\ (Kind(T, ms[k].dev) = "SPU") = kernel /\ r \in Ranks(T, ms[k].dev)})
      Seen(r, op) == Count(ex, LAMBDA e : e.r = r /\ e.op = op)
  IN /\ \A r \in 0 .. T.world - 1 : Seen(r, "run") = (IF done THEN Runs(r, FALSE) ELSE 0) /\ Seen(r, "kernel") = (IF done THEN Runs(r, TRUE) ELSE 0)
     /\ \A i \in DOMAIN en : \E k \in DOMAIN ms : ms[k].ok /\ Kind(T, ms[k].dev) = "SPU" /\ Computes(T, G.ops[k], ms[k].dev) /\ {en[i].r, en[i].to} \subseteq Ranks(T, ms[k].dev)
Moved == Flat(ms)
(* One operation after another, then what happened *)
Operation == /\ l <= Len(T.groups) /\ Len(ms) < Len(G.ops)
             /\ LET o == G.ops[Len(ms) + 1]
                    m == Meaning(T, cur, o)
                IN /\ OpOK(o, m) = TRUE
                   /\ ms' = Append(ms, m)
                   /\ cur' = IF m.ok THEN cur \o [j \in DOMAIN m.out |-> [d |-> m.dev, v |-> m.out[j]]] ELSE cur
             /\ UNCHANGED <<tid, l, env, hist, nonces>>
Advance == /\ l <= Len(T.groups) /\ Len(ms) = Len(G.ops)
           /\ (Transfers(Steps, Moved, Evaluated) /\ Executions(Evaluated)) = TRUE   \* (a value, not alternatives of the action)
           /\ l' = l + 1 /\ UNCHANGED tid /\ ms' = <<>>
           /\ env' = (IF G.fresh THEN env ELSE cur)
           /\ cur' = (IF l < Len(T.groups) /\ T.groups[l + 1].fresh THEN <<>> ELSE env')
           /\ hist' = (IF G.fresh THEN hist ELSE hist \cup Own) /\ nonces' = nonces \cup New
TraceSpec == Init /\ [][Operation \/ Advance]_tv
Accept == /\ (l = Len(T.groups) + 1) => PrintT("@" \o ToJson([acc |-> tid]))
          /\ (IOEnv.TRACE_DIAG = "1") => PrintT("@" \o ToJson([at |-> l]))
================================================================================
