CONSTANTS P = 3
K = 6
FMAX = 2
NMAX = 3
INIT Init
NEXT Next
INVARIANTS Unbiased Partial
CHECK_DEADLOCK FALSE
