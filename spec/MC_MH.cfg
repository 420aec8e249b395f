CONSTANTS
 K = 3
 MaxD = 3
INIT Init
NEXT Next
INVARIANTS DetailedBalance InSupp
CHECK_DEADLOCK FALSE
