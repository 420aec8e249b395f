SPECIFICATION Spec
CONSTANTS Points = {1, 2, 3, 4} Dead = {3} Outside = {4} NAct = 2 Batches = 1 MaxHist = 2 MaxSteps = 2 BUG = "blob-alias"
INVARIANTS InvCoherent InvSupported InvEvaluated InvAncestry
PROPERTY AppendOnly
CHECK_DEADLOCK FALSE
