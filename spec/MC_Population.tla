--------------------------- MODULE MC_Population ----------------------------
EXTENDS Population
=============================================================================
