------------------------------ MODULE MC_Failure ------------------------------
EXTENDS Failure
=============================================================================
