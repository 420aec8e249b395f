SPECIFICATION Spec
CONSTANTS MaxOps = 7 BUG = "none"
INVARIANTS EmitDone
CHECK_DEADLOCK FALSE
