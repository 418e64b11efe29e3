------------------------------ MODULE MC_Cluster -------------------------------
(* All small descriptions, consistent or not, and what the rules guarantee: the  *)
(* ranks of a device are those of its members, distinct and in the world; a      *)
(* single-party device has one; writing the cluster down loses nothing. (Each    *)
(* rule is needed: Bug drops one.) The device inferred for an operation does not *)
(* depend on the order of its inputs and is never guessed.                       *)
EXTENDS Cluster, Json
CONSTANTS MaxNodes, MaxMembers, Bug, Emit
DV == INSTANCE Devices
Names == {"a", "b", "c"}
Kinds == {"PPU", "SPU", "TEE"}
SeqUpTo(S, n) == UNION {[1 .. k -> S] : k \in 0 .. n}
VARIABLES D, form
vars == <<D, form>>
Listed == [nodes : SeqUpTo(Names, MaxNodes), devs : [1 .. 1 -> [kind : Kinds, members : SeqUpTo(Names, MaxMembers)]]]
(* two entries, each possibly missing *)
NodeObj(k) == {<<>>} \cup {<<[key |-> k, name |-> n, rank |-> r]>> : n \in Names, r \in 0 .. 2}
Built == [nodes : {x \o y : x \in NodeObj("a"), y \in NodeObj("b")},
          devs : [1 .. 1 -> [key : {"D"}, name : {"D", "E"}, kind : Kinds, members : SeqUpTo([name : {"a", "b"}, rank : 0 .. 2], 2)]]]
Init == \/ form = "listed" /\ D \in Listed
        \/ form = "built" /\ D \in Built
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Accepted == IF form = "listed" THEN
              CASE Bug = "DuplicateNodes" -> \A i \in DOMAIN D.devs : Range(D.devs[i].members) \subseteq Range(D.nodes) /\ MembersOK(D.devs[i].kind, D.devs[i].members)
                [] Bug = "UnknownMembers" -> Once(D.nodes) /\ \A i \in DOMAIN D.devs : MembersOK(D.devs[i].kind, D.devs[i].members)
                [] Bug = "AnyCount" -> Once(D.nodes) /\ \A i \in DOMAIN D.devs : Range(D.devs[i].members) \subseteq Range(D.nodes) /\ Once(D.devs[i].members)
                [] Bug = "DuplicateMembers" -> Once(D.nodes) /\ \A i \in DOMAIN D.devs : Range(D.devs[i].members) \subseteq Range(D.nodes) /\ Len(D.devs[i].members) > 0 /\ (D.devs[i].kind \in Single => Len(D.devs[i].members) = 1)
                [] OTHER -> Consistent(D)
            ELSE IF Bug = "AnyRanks" THEN \A i \in DOMAIN D.nodes : D.nodes[i].key = D.nodes[i].name ELSE BuiltOK(D)
(* What users rely on, stated without the rules *)
Ranked == Accepted =>
  IF form = "listed" THEN
     /\ \A n \in Names : Cardinality({i \in DOMAIN D.nodes : D.nodes[i] = n}) <= 1
     /\ \A i \in DOMAIN D.devs : LET ms == D.devs[i].members IN
          /\ \A j \in DOMAIN ms : \E k \in DOMAIN D.nodes : D.nodes[k] = ms[j]
          /\ Cardinality({RanksOf(D, i)[j] : j \in DOMAIN ms}) = Len(ms) /\ Len(ms) >= 1
          /\ D.devs[i].kind \in {"PPU", "TEE"} => Len(ms) = 1
  ELSE /\ \A r \in 0 .. Len(D.nodes) - 1 : Cardinality({i \in DOMAIN D.nodes : D.nodes[i].rank = r}) = 1
       \* reading what is written gives the same ranks
       /\ LET W == [k \in 1 .. Len(D.nodes) |-> D.nodes[Written(D)[k]].name] IN \A i \in DOMAIN D.nodes : (CHOOSE k \in DOMAIN W : W[k] = D.nodes[i].name) - 1 = D.nodes[i].rank
Cl == [ids |-> <<"P", "Q", "S", "R", "T">>, kinds |-> <<"PPU", "PPU", "SPU", "SPU", "TEE">>, members |-> <<<<0>>, <<1>>, <<0, 1>>, <<1, 2>>, <<2>>>>]
Inferred == \A devs \in SUBSET Range(Cl.ids), auto \in BOOLEAN :
  LET r == DV!Infer(Cl, devs, auto)  s == {d \in devs : DV!Secure(Cl, d)} IN
  /\ r = DV!Refused \/ r \in devs
  /\ (r # DV!Refused /\ Cardinality(devs) > 1) => auto /\ s = {r}
  /\ Cardinality(devs) = 1 => r \in devs
  /\ (auto /\ Cardinality(s) = 1 /\ Cardinality(devs) > 1) => r \in s
ASSUME Inferred
Out == Emit => PrintT("@" \o ToJson([form |-> form, nodes |-> D.nodes, devs |-> D.devs, ok |-> Accepted, open |-> Open(D),
                                     ranks |-> IF form = "listed" /\ Accepted THEN RanksOf(D, 1) ELSE <<>>]))
================================================================================
