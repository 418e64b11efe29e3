------------------------------- MODULE SpuLinks --------------------------------
(* Secure kernels: executed by the parties of a device, each in the position of  *)
(* its rank, over a link between exactly them. Workers keep links for later      *)
(* kernels; messages of a link carry its tag and a running number.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Place(ps, r) == Cardinality({q \in ps : q < r})
(* What a kernel of parties ps sends and receives at r: something to and from    *)
(* each of the others.                                                           *)
Others(ps, r) == ps \ {r}
(* The tag of the link that request c uses on a device: what distinguishes it    *)
(* from all other links that may be in use at the same time.                     *)
Tag(c, ps, s) == <<"spu", c, ps, s>>
================================================================================
