----------------------------- MODULE MC_Isolation -----------------------------
EXTENDS Isolation
Cs == {"a", "0", ".", ":", "%"}
Pairs == {<<<<"a">>, <<"a", ".", "0">>>>, <<<<"a">>, <<"a", ":", "0">>>>, <<<<"a", ".", "0">>, <<"a">>>>, <<<<"a", "%", "0">>, <<"a", ".", "0">>>>, <<<<"a">>, <<"0">>>>}
=============================================================================
