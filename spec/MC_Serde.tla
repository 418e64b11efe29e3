-------------------------------- MODULE MC_Serde --------------------------------
EXTENDS Serde, Json
\* writing is one-to-one (checked over the shallow terms)
ASSUME LET S == Terms(1) IN Bug # "none" \/ (Cardinality({WriteT(t) : t \in S}) = Cardinality(S) /\ Cardinality({WriteB(t) : t \in S}) = Cardinality(S))
Print1 == got.k = "nothing" /\ form = "text" => PrintT("@" \o ToJson([t |-> term]))
=============================================================================
