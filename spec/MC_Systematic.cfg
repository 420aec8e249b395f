SPECIFICATION Spec
CONSTANTS MaxN = 3 MaxW = 3 MaxSize = 4
INVARIANTS InRange WalkIsComb Counts Monotone Unbiased
PROPERTY Terminates
CHECK_DEADLOCK FALSE
