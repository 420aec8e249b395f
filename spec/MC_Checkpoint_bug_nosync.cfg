CONSTANTS K = 3
Algo = "nosync"
MaxSaves = 2
INIT Init
NEXT Next
INVARIANTS Safe Completes
CHECK_DEADLOCK FALSE
