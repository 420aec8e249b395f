----------------------------- MODULE MC_Observe -----------------------------
EXTENDS Observe
MCNeeds == <<2, 4>>
View == <<hist, rng, tune, run, Len(cmds)>>
=============================================================================
