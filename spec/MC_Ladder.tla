----------------------------- MODULE MC_Ladder ------------------------------
EXTENDS Ladder
=============================================================================
