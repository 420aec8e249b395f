SPECIFICATION Spec
CONSTANTS MaxN = 4 MaxW = 3 MaxSize = 5
INVARIANTS InRange WalkIsComb Counts Monotone Unbiased
PROPERTY Terminates
CHECK_DEADLOCK FALSE
