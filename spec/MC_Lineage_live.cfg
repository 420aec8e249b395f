CONSTANTS
 Batches = 2
 Per = 3
 Needs <- MCNeeds
 Everys = {0,2}
 MaxCmds = 2
 BUG = "none"
SPECIFICATION Spec
INVARIANTS InvIter InvPrior InvCalls InvFiles InvOneLineage InvResults InvStop StopExact
PROPERTIES AppendOnly RunsEnd
CHECK_DEADLOCK FALSE
