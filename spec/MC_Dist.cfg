CONSTANTS Points = {1, 2, 3}
MaxLen = 3
Workers = {1, 2, 3}
Chunks = {1, 2}
Ordered = TRUE
INIT Init
NEXT Next
INVARIANTS SameAsSerial Once
CHECK_DEADLOCK FALSE
