CONSTANTS
 Batches = 2
 Per = 3
 Needs <- MCNeeds
 Everys = {0,1,2}
 MaxCmds = 3
 BUG = "none"
INIT Init
NEXT Next
INVARIANTS EmitDone
CHECK_DEADLOCK FALSE
