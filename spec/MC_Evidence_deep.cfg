CONSTANTS P = 3
K = 8
FMAX = 3
NMAX = 4
INIT Init
NEXT Next
INVARIANTS Unbiased Partial
CHECK_DEADLOCK FALSE
