CONSTANTS K = 3
Algo = "noflush"
MaxSaves = 2
INIT Init
NEXT Next
INVARIANTS Safe Completes
CHECK_DEADLOCK FALSE
