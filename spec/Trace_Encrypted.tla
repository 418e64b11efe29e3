---------------------------- MODULE Trace_Encrypted ----------------------------
(* Recorded sequences of operations. A case has t and h of its slots, and ops:   *)
(* op, a: operands (numbers of earlier results), n: numbers, w: text; out: ok or *)
(* refused; v: what the result decrypts to or is (numbers; triples row, column,  *)
(* value for slots); cls: numbers for what must be the same or different.        *)
EXTENDS Encrypted, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, env
tv == <<tid, l, env>>
C == Traces[tid]
O == C.ops[l]
E(i) == env[O.a[i]]
Bad == [k |-> "bad"]
Slot(v) == [k |-> "slots", v |-> v]
Map2(f(_, _), x, y) == IF Len(x) = Len(y) THEN [i \in DOMAIN x |-> f(x[i], y[i])]
                       ELSE IF Len(x) = 1 THEN [i \in DOMAIN y |-> f(x[1], y[i])] ELSE [i \in DOMAIN x |-> f(x[i], y[1])]
Plus(x, y) == x + y
Times(x, y) == x * y
(* What the operation results in *)
Result ==
  CASE O.op \in {"bfv.plain", "bfv.batch", "bfv.enc"} -> Slot(Listed(O.n, C.h))
    [] O.op = "bfv.add" -> Slot(SlotsAdd(E(1).v, E(2).v, C.t))
    [] O.op = "bfv.sub" -> Slot(SlotsSub(E(1).v, E(2).v, C.t))
    [] O.op = "bfv.mul" -> Slot(SlotsMul(E(1).v, E(2).v, C.t))
    [] O.op = "bfv.rot" -> Slot(SlotsRot(E(1).v, O.n[1], C.h))
    [] O.op = "bfv.rotc" -> Slot(SlotsSwap(E(1).v))
    [] O.op \in {"bfv.relin", "bfv.ship", "bfv.encp", "phe.encp", "ec.bytes", "ec.ship"} -> E(1)
    [] O.op \in {"phe.enc", "phe.plain"} -> [k |-> "ints", v |-> O.n]
    [] O.op = "phe.add" -> [k |-> "ints", v |-> Map2(Plus, E(1).v, E(2).v)]
    [] O.op = "phe.mul" -> [k |-> "ints", v |-> Map2(Times, E(1).v, E(2).v)]
    [] O.op = "ec.gen" -> [k |-> "point", v |-> 1]
    [] O.op = "ec.mul" -> [k |-> "point", v |-> E(1).v * O.n[1]]
    [] O.op = "ec.add" -> [k |-> "point", v |-> E(1).v + E(2).v]
    [] O.op = "ec.sub" -> [k |-> "point", v |-> E(1).v - E(2).v]
    [] O.op = "ec.select" -> IF O.n[1] # 0 THEN E(1) ELSE E(2)
    [] O.op = "key.random" -> [k |-> "key", v |-> <<"random", l>>]
    [] O.op = "kem.keygen" -> [k |-> "pair", v |-> l]
    [] O.op = "kem.derive" -> [k |-> "key", v |-> Agreed(E(1).v, E(2).v)]
    [] O.op = "hkdf" -> [k |-> "key", v |-> Derived(E(1).v, O.w)]
    [] O.op = "sym.enc" -> [k |-> "ct", v |-> O.n, key |-> E(1).v, bad |-> FALSE]
    [] O.op \in {"sym.alter", "sym.cut"} -> [E(1) EXCEPT !.bad = TRUE]
    [] O.op = "sym.ship" -> E(1)
    [] O.op = "sym.dec" -> IF E(2).bad \/ E(2).key # E(1).v THEN Bad ELSE [k |-> "data", v |-> E(2).v]
    [] O.op = "hash" -> [k |-> "hash", v |-> O.n]
(* May the operation be refused although it means something? *)
May == \/ O.op = "bfv.rot" /\ O.free                \* products that are not relinearised, and rotations beyond a row
       \/ O.op \in {"bfv.add", "bfv.sub"} /\ O.free /\ \E i \in 1 .. 2 : NonZero(E(i).v) = {}   \* a received zero and a plain vector, without the key
       \/ O.op \in {"bfv.add", "bfv.sub"} /\ O.free /\ O.w = "mix"     \* received sums of the same ciphertexts: the result may show itself
       \/ O.op = "bfv.relin" /\ O.free
Same(r) ==
  CASE r.k = "slots" -> {<<x[1], x[2], x[3]>> : x \in Range(O.v)} = NonZero(r.v)
    [] r.k = "ints" -> O.v = r.v
    [] r.k = "point" -> O.v = <<r.v>>
    [] r.k = "data" -> O.v = r.v
    [] r.k = "key" -> \A j \in 1 .. l - 1 : env[j].k = "key" => (C.ops[j].cls = O.cls <=> env[j].v = r.v)
    [] r.k = "hash" -> \A j \in 1 .. l - 1 : env[j].k = "hash" => (C.ops[j].cls = O.cls <=> env[j].v = r.v)
    [] r.k = "ct" -> O.op # "sym.enc" \/ \A j \in 1 .. l - 1 : C.ops[j].op = "sym.enc" => C.ops[j].cls # O.cls   \* never the same ciphertext twice
    [] r.k = "pair" -> \A j \in 1 .. l - 1 : env[j].k = "pair" => C.ops[j].cls # O.cls
    [] OTHER -> TRUE
Init == tid \in 1 .. Len(Traces) /\ l = 1 /\ env = <<>>
Next == /\ l <= Len(C.ops)
        /\ (LET r == Result IN IF r.k = "bad" THEN O.out = "refused" ELSE (O.out = "ok" /\ Same(r)) \/ (O.out = "refused" /\ May)) = TRUE
        /\ env' = Append(env, Result) /\ l' = l + 1 /\ UNCHANGED tid
TraceSpec == Init /\ [][Next]_tv
Accept == /\ (l = Len(C.ops) + 1) => PrintT("@" \o ToJson([acc |-> tid]))
          /\ (IOEnv.TRACE_DIAG = "1") => PrintT("@" \o ToJson([at |-> l]))
================================================================================
