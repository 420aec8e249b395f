CONSTANTS
 Batches = 2
 Per = 3
 Needs <- MCNeeds
 Everys = {0,1,2}
 MaxCmds = 4
 BUG = "none"
INIT Init
NEXT Next
VIEW View
INVARIANTS InvIter InvPrior InvCalls InvFiles InvOneLineage InvResults InvStop StopExact
CHECK_DEADLOCK FALSE
