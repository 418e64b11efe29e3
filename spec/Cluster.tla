-------------------------------- MODULE Cluster --------------------------------
(* Descriptions of a cluster: nodes in a list whose order gives the ranks, and   *)
(* devices of some kind over nodes named as members. Which descriptions are      *)
(* consistent, and which ranks a device gets.                                    *)
(* A description D: nodes (sequence of names), devs (sequence of [kind,          *)
(* members]). Built directly from objects, D: nodes (sequence of [key, name,     *)
(* rank]), devs (sequence of [key, name, kind, members: sequence of [name,       *)
(* rank]]).                                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Range(s) == {s[i] : i \in DOMAIN s}
Once(s) == Cardinality(Range(s)) = Len(s)
Single == {"PPU", "TEE"}
MembersOK(k, ms) == Len(ms) > 0 /\ Once(ms) /\ (k \in Single => Len(ms) = 1)
Consistent(D) == /\ Once(D.nodes)
                 /\ \A i \in DOMAIN D.devs : Range(D.devs[i].members) \subseteq Range(D.nodes) /\ MembersOK(D.devs[i].kind, D.devs[i].members)
Rank(D, n) == (CHOOSE i \in DOMAIN D.nodes : D.nodes[i] = n) - 1
RanksOf(D, i) == [j \in DOMAIN D.devs[i].members |-> Rank(D, D.devs[i].members[j])]
(* Built directly: keys are the names, ranks those of a list, members the nodes. *)
Keys(D) == [i \in DOMAIN D.nodes |-> D.nodes[i].name]
BuiltOK(D) == /\ \A i \in DOMAIN D.nodes : D.nodes[i].key = D.nodes[i].name
              /\ Once(Keys(D)) /\ {D.nodes[i].rank : i \in DOMAIN D.nodes} = 0 .. Len(D.nodes) - 1
              /\ \A i \in DOMAIN D.devs :
                   /\ D.devs[i].key = D.devs[i].name
                   /\ \A m \in Range(D.devs[i].members) : \E j \in DOMAIN D.nodes : D.nodes[j].name = m.name /\ D.nodes[j].rank = m.rank
                   /\ MembersOK(D.devs[i].kind, [j \in DOMAIN D.devs[i].members |-> D.devs[i].members[j].name])
(* The list in the order of the ranks *)
Written(D) == [k \in 1 .. Len(D.nodes) |-> (CHOOSE j \in DOMAIN D.nodes : D.nodes[j].rank = k - 1)]
(* Nothing is promised for these: a cluster of no nodes, kinds nobody knows      *)
Open(D) == Len(D.nodes) = 0 \/ \E i \in DOMAIN D.devs : D.devs[i].kind \notin {"PPU", "SPU", "TEE"}
================================================================================
