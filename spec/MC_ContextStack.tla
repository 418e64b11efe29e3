----------------------------- MODULE MC_ContextStack -----------------------------
EXTENDS ContextStack
=============================================================================
