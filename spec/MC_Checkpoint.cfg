CONSTANTS K = 3
Algo = "safe"
MaxSaves = 2
INIT Init
NEXT Next
INVARIANTS Safe Completes
CHECK_DEADLOCK FALSE
