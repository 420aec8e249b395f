----------------------------- MODULE MC_Isolate -----------------------------
EXTENDS Isolate
View == <<built, hist, opt, dflt, obj, pos, Len(ops)>>
=============================================================================
