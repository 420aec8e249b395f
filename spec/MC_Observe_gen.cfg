SPECIFICATION Spec
CONSTANTS Needs <- MCNeeds MaxCmds = 3 BUG = "none"
INVARIANTS EmitDone
CHECK_DEADLOCK FALSE
