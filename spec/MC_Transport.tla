----------------------------- MODULE MC_Transport -----------------------------
EXTENDS Transport
AllChars == {"a", "/", ".", "%", "S", "D"}
TwoChars == {"/", "."}
=============================================================================
