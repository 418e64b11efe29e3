-------------------------------- MODULE Devices --------------------------------
(* Devices over the workers of a cluster: plain devices (PPU) and trusted       *)
(* devices (TEE) live on one worker, secure multi-party devices (SPU) on        *)
(* several. What an operation on device values means: on which device it runs,  *)
(* which values move between which devices before, what the result is, and what *)
(* may and must be sent for every move.                                         *)
(* A cluster C: ids, kinds, members (sequences; ranks of members as written).   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Range(s) == {s[i] : i \in DOMAIN s}
Known(C, d) == d \in Range(C.ids)
At(C, d) == CHOOSE i \in DOMAIN C.ids : C.ids[i] = d
Kind(C, d) == C.kinds[At(C, d)]
Ranks(C, d) == Range(C.members[At(C, d)])
Owner(C, d) == CHOOSE r \in Ranks(C, d) : TRUE
(* Members of a secure device hold the positions of their ranks in ascending order. *)
Position(C, d, r) == Cardinality({q \in Ranks(C, d) : q < r})
Secure(C, d) == Kind(C, d) \in {"SPU", "TEE"}
Refused == "?"
(* The device of an operation for which none is named: devs are those of its    *)
(* inputs, auto: inputs may be moved.                                           *)
Infer(C, devs, auto) ==
  IF devs = {} THEN Refused
  ELSE IF Cardinality(devs) = 1 THEN CHOOSE d \in devs : TRUE
  ELSE IF ~auto THEN Refused
  ELSE LET s == {d \in devs : Secure(C, d)} IN IF Cardinality(s) = 1 THEN CHOOSE d \in s : TRUE ELSE Refused
Movable(C, a, b) == a = b \/ <<Kind(C, a), Kind(C, b)>> \notin {<<"SPU", "SPU">>, <<"TEE", "TEE">>}
--------------------------------------------------------------------------------
(* Functions of pairs of integers *)
Plus(a, b) == [i \in 1 .. 2 |-> a[i] + b[i]]
Minus(a, b) == [i \in 1 .. 2 |-> a[i] - b[i]]
Apply(f, a) == CASE f = "add" -> <<Plus(a[1], a[2])>>
                 [] f = "sub" -> <<Minus(a[1], a[2])>>
                 [] f = "id" -> <<a[1]>>
                 [] f = "neg" -> <<[i \in 1 .. 2 |-> - a[1][i]]>>
                 [] f = "two" -> <<Plus(a[1], a[2]), Minus(a[1], a[2])>>
                 [] f = "add3" -> <<Plus(Plus(a[1], a[2]), a[3])>>
(* An operation o in an environment env (sequence of [d, v]): what it comes to. *)
(* o: [op, dev, f, args (positions in env, 0: the next host value), h, auto]    *)
(* Result: ok, dev, out (values), moves (sequence of [n, from, to, v]), where n *)
(* is the position of the moved value.                                          *)
HostArg(o, k) == LET n == Cardinality({j \in 1 .. k : o.args[j] = 0}) IN <<o.h[2 * n - 1], o.h[2 * n]>>
ArgVal(env, o, k) == IF o.args[k] = 0 THEN HostArg(o, k) ELSE env[o.args[k]].v
Target(C, env, o) == IF o.dev # "" THEN (IF Known(C, o.dev) THEN o.dev ELSE Refused)
                     ELSE Infer(C, {env[o.args[k]].d : k \in {j \in DOMAIN o.args : o.args[j] # 0}}, o.auto)
Nothing == [ok |-> FALSE, dev |-> Refused, out |-> <<>>, moves |-> <<>>]
RECURSIVE MovesOf(_, _, _, _)
MovesOf(env, o, t, k) == IF k > Len(o.args) THEN <<>>
                         ELSE LET rest == MovesOf(env, o, t, k + 1) IN
                              IF o.args[k] = 0 \/ (o.args[k] # 0 /\ env[o.args[k]].d = t) THEN rest
                              ELSE <<[n |-> o.args[k], from |-> env[o.args[k]].d, to |-> t, v |-> env[o.args[k]].v]>> \o rest
Meaning(C, env, o) ==
  LET t == Target(C, env, o) IN
  IF t = Refused THEN Nothing
  ELSE LET m == IF o.op = "put" THEN <<>> ELSE MovesOf(env, o, t, 1) IN
       [ok |-> \A i \in DOMAIN m : Movable(C, m[i].from, m[i].to),
        dev |-> t,
        out |-> IF o.op = "put" THEN <<<<o.h[1], o.h[2]>>>> ELSE IF o.op = "move" THEN <<env[o.args[1]].v>> ELSE Apply(o.f, [k \in DOMAIN o.args |-> ArgVal(env, o, k)]),
        moves |-> m]
(* A computation takes place for these operations, on every rank of the device. *)
Computes(C, o, t) == o.op = "run" \/ (o.op = "put" /\ Kind(C, t) = "SPU")
--------------------------------------------------------------------------------
(* What a move sends, besides establishing a session: the set of                *)
(* [op, from, to, idx, n, v] (ranks); local steps send nothing.                 *)
Clear(C, m) == IF <<Kind(C, m.from), Kind(C, m.to)>> = <<"PPU", "PPU">>
               THEN {[op |-> "clear", r |-> Owner(C, m.from), to |-> Owner(C, m.to), i |-> <<>>, v |-> m.v]} ELSE {}
Shares(C, m) == IF Kind(C, m.to) = "SPU" THEN {[op |-> "share", r |-> Owner(C, m.from), to |-> q, i |-> <<Position(C, m.to, q), Cardinality(Ranks(C, m.to))>>, v |-> <<>>] : q \in Ranks(C, m.to)}
                ELSE IF Kind(C, m.from) = "SPU" THEN {[op |-> "share", r |-> q, to |-> Owner(C, m.to), i |-> <<Position(C, m.from, q), Cardinality(Ranks(C, m.from))>>, v |-> <<>>] : q \in Ranks(C, m.from)}
                ELSE {}
Sends(C, m) == {x \in Clear(C, m) \cup Shares(C, m) : x.r # x.to}
Trusted(C, m) == {Kind(C, m.from), Kind(C, m.to)} = {"PPU", "TEE"}
PlainEnd(C, m) == IF Kind(C, m.from) = "PPU" THEN Owner(C, m.from) ELSE Owner(C, m.to)
TrustedEnd(C, m) == IF Kind(C, m.from) = "TEE" THEN Owner(C, m.from) ELSE Owner(C, m.to)
--------------------------------------------------------------------------------
(* The keys of sessions: H is the set of cryptographic steps of one program     *)
(* context (k: op; r: rank; i, o: what goes in and comes out).                  *)
Step(H, r, op) == {h \in H : h.r = r /\ h.op = op}
(* K protects what travels between the plain party p and the trusted party t:   *)
(* t made a key pair and a quote over it, p attested that quote and agreed with *)
(* that key by a key pair of its own, t agreed with p's; K is derived from what *)
(* they agreed on.                                                              *)
Session(H, p, t, K) ==
  \E x1 \in Step(H, p, "hkdf") : x1.o[1] = K /\
  \E d1 \in Step(H, p, "derive") : d1.o[1] = x1.i[1] /\
  \E a \in Step(H, p, "attest") : a.o[1] = d1.i[2] /\
  \E q \in Step(H, t, "quote") : q.o = a.i /\ q.i = a.o /\
  \E kt \in Step(H, t, "keygen") : kt.o[2] = q.i[1] /\
  \E x2 \in Step(H, t, "hkdf") : x2.o[1] = K /\
  \E d2 \in Step(H, t, "derive") : d2.o[1] = x2.i[1] /\ d2.i[1] = kt.o[1] /\
  \E kp \in Step(H, p, "keygen") : kp.o[1] = d1.i[1] /\ kp.o[2] = d2.i[2] /\ kp # kt
(* and nobody else has it *)
Held(H, K) == {h.r : h \in {x \in H : x.op = "hkdf" /\ x.o[1] = K}}
================================================================================
