CONSTANTS K = 3
Algo = "safe"
MaxSaves = 4
INIT Init
NEXT Next
INVARIANTS Safe Completes
CHECK_DEADLOCK FALSE
