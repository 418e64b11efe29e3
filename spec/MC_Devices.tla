------------------------------ MODULE MC_Devices ------------------------------
(* Moves between devices step by step, over a network whose ciphertexts and     *)
(* handshake messages everybody sees and on which a foreign key may be put in   *)
(* place of the trusted device's. Ranks are curious: they keep whatever they    *)
(* receive. Checked: a rank learns a value only where the program puts it in    *)
(* clear; nothing of what goes to or from a trusted device is learned from the  *)
(* network; keys serve one pair of devices in one program; values arrive.       *)
EXTENDS Devices
CONSTANTS Cl, MaxMoves, MaxCtx, Bug
(* items: <<"v", x>> the value x; <<"s", g, i, n, x>> share i of n of sharing g  *)
(* of x; <<"c", k, x>> ciphertext of x under key k; keys [p, t, by, c, who]      *)
VARIABLES objs,      \* values: [d: device, x: which, at: rank -> item or <<>>, in: devices that had it in clear]
          know,      \* rank -> items; rank -1: the network
          sess,      \* sessions: set of [p, t, k, c]
          made, ctx, sent
vars == <<objs, know, sess, made, ctx, sent>>
World == 0 .. 3
C == Cl
Devs == Range(C.ids)
InOrder(R) == [i \in 1 .. Cardinality(R) |-> CHOOSE r \in R : Cardinality({q \in R : q < r}) = i - 1]
C1 == [ids |-> <<"P", "Q", "S", "T">>, kinds |-> <<"PPU", "PPU", "SPU", "TEE">>, members |-> <<<<0>>, <<1>>, <<2, 0, 1>>, <<3>>>>]
C2 == [ids |-> <<"P", "Q", "S", "T", "U", "S2">>, kinds |-> <<"PPU", "PPU", "SPU", "TEE", "TEE", "SPU">>, members |-> <<<<0>>, <<2>>, <<1, 3>>, <<3>>, <<2>>, <<0, 1>>>>]
Item(o, r) == o.at[r]
Only(R, f(_)) == [r \in World |-> IF r \in R THEN f(r) ELSE <<"none">>]
Init == /\ objs = <<>> /\ know = [r \in World \cup {-1} |-> {}] /\ sess = {} /\ made = 0 /\ ctx = 1 /\ sent = {}
Put(d) == /\ Kind(C, d) # "SPU" /\ Len(objs) < 2
          /\ LET x == Len(objs) + 1 IN
             /\ objs' = Append(objs, [d |-> d, x |-> x, at |-> Only(Ranks(C, d), LAMBDA r : <<"v", x>>), in |-> {d}, net |-> FALSE])
             /\ know' = [know EXCEPT ![Owner(C, d)] = @ \cup {<<"v", x>>}]
          /\ UNCHANGED <<sess, made, ctx, sent>>
(* Sending: the receiver and, for everything but shares and clear values, the   *)
(* network learn it.                                                            *)
Learn(K, a, b, it) == [K EXCEPT ![b] = @ \cup {it}, ![-1] = IF a # b /\ it[1] \notin {"s"} THEN @ \cup {it} ELSE @]
RECURSIVE LearnAll(_, _)
LearnAll(K, ms) == IF ms = <<>> THEN K ELSE LearnAll(Learn(K, ms[1][1], ms[1][2], ms[1][3]), Tail(ms))
Upd(j, d, at, net) == objs' = [objs EXCEPT ![j] = [@ EXCEPT !.d = d, !.at = at, !.in = IF Kind(C, d) = "SPU" THEN @ ELSE @ \cup {d}, !.net = @ \/ net]]
Key(p, t, evil) == [p |-> p, t |-> t, c |-> ctx, evil |-> evil]
(* A session: reused if there is one for the pair in this program, otherwise the *)
(* trusted device's quote is checked, so that a foreign key is noticed.         *)
Found(p, t) == {s \in sess : /\ (Bug # "SessionMix" => s.p = p) /\ s.t = t /\ (Bug # "StaleSession" => s.c = ctx)}
Sessions(p, t) == IF Found(p, t) # {} THEN {CHOOSE s \in Found(p, t) : TRUE}
                  ELSE {[p |-> p, t |-> t, c |-> ctx, k |-> Key(p, t, e)] : e \in (IF Bug = "NoAttest" THEN BOOLEAN ELSE {FALSE})}
Move(j, d) ==
  LET o == objs[j]  a == o.d  ka == Kind(C, a)  kb == Kind(C, d) IN
  /\ a # d /\ Movable(C, a, d) /\ made < MaxMoves /\ made' = made + 1 /\ UNCHANGED ctx
  /\ IF ka = "PPU" /\ kb = "PPU" THEN
          /\ know' = Learn(know, Owner(C, a), Owner(C, d), <<"v", o.x>>)
          /\ Upd(j, d, Only(Ranks(C, d), LAMBDA r : Item(o, Owner(C, a))), TRUE) /\ UNCHANGED sess /\ sent' = sent
     ELSE IF kb = "SPU" THEN
          LET n == Cardinality(Ranks(C, d))
              Pos(r) == IF Bug = "WrongShare" THEN 0 ELSE Position(C, d, r)
              S(r) == <<"s", made, Pos(r), n, o.x>>
              RS == InOrder(Ranks(C, d))
              \* everything goes to everybody
              ms == IF Bug = "Broadcast" THEN [i \in 1 .. n * n |-> <<Owner(C, a), RS[((i - 1) \div n) + 1], S(RS[((i - 1) % n) + 1])>>]
                    ELSE [i \in 1 .. n |-> <<Owner(C, a), RS[i], S(RS[i])>>]
          IN /\ know' = LearnAll(know, ms) /\ Upd(j, d, Only(Ranks(C, d), S), FALSE) /\ UNCHANGED <<sess, sent>>
     ELSE IF ka = "SPU" THEN
          LET RS == InOrder(Ranks(C, a))
              K == LearnAll(know, [i \in 1 .. Len(RS) |-> <<RS[i], Owner(C, d), Item(o, RS[i])>>])
              whole == {Item(o, r)[3] : r \in Ranks(C, a)} = 0 .. Len(RS) - 1
              it == IF whole THEN <<"v", o.x>> ELSE <<"v", 0>>
          IN /\ know' = [K EXCEPT ![Owner(C, d)] = @ \cup {it}] /\ Upd(j, d, Only(Ranks(C, d), LAMBDA r : it), FALSE) /\ UNCHANGED <<sess, sent>>
     ELSE LET p == IF ka = "PPU" THEN a ELSE d  t == IF ka = "TEE" THEN a ELSE d IN
          \E s \in Sessions(p, t) :
             LET ct == IF Bug = "PlainTee" /\ ka = "TEE" THEN <<"v", o.x>> ELSE <<"c", s.k, o.x>>
                 K0 == [know EXCEPT ![Owner(C, p)] = @ \cup {<<"k", s.k>>}, ![IF s.k.evil THEN -1 ELSE Owner(C, t)] = @ \cup {<<"k", s.k>>}]
                 K == Learn(K0, Owner(C, a), Owner(C, d), ct)
             IN /\ know' = [K EXCEPT ![Owner(C, d)] = @ \cup {<<"v", o.x>>}]
                /\ Upd(j, d, Only(Ranks(C, d), LAMBDA r : <<"v", o.x>>), FALSE)
                /\ sess' = {u \in sess : u.p # p \/ u.t # t} \cup {s}
                /\ sent' = sent \cup {[p |-> p, t |-> t, k |-> s.k, c |-> ctx]}
(* Another program starts: values stay where they are *)
Next == \/ \E d \in Devs : Put(d)
        \/ \E j \in DOMAIN objs, d \in Devs : Move(j, d)
        \/ ctx < MaxCtx /\ made > 0 /\ ctx' = ctx + 1 /\ UNCHANGED <<objs, know, sess, made, sent>>
Spec == Init /\ [][Next]_vars
(* What can be concluded from a set of items *)
Closure(I) == {it[2] : it \in {i \in I : i[1] = "v"}}
              \cup {it[3] : it \in {i \in I : i[1] = "c" /\ <<"k", i[2]>> \in I}}
              \cup {it[5] : it \in {i \in I : i[1] = "s" /\ \A q \in 0 .. i[4] - 1 : <<"s", i[2], q, i[4], i[5]>> \in I}}
Seen(r) == know[r] \cup {i \in know[-1] : i[1] = "c"}
OwnClear(o) == UNION {Ranks(C, d) : d \in o.in}
Confidential == \A j \in DOMAIN objs, r \in World : objs[j].x \in Closure(Seen(r)) => r \in OwnClear(objs[j])
Network == \A j \in DOMAIN objs : objs[j].x \in Closure(know[-1]) => objs[j].net
Arrived == \A j \in DOMAIN objs : LET o == objs[j] IN
             IF Kind(C, o.d) = "SPU" THEN {<<Item(o, r)[3], Item(o, r)[5]>> : r \in Ranks(C, o.d)} = {<<Position(C, o.d, r), o.x>> : r \in Ranks(C, o.d)}
             ELSE Item(o, Owner(C, o.d)) = <<"v", o.x>>
OnePair == \A s \in sent : s.k.p = s.p /\ s.k.t = s.t /\ s.k.c = s.c
================================================================================
