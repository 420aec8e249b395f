SPECIFICATION Spec
CONSTANTS R = 12 W = 5
INVARIANTS Right Unique Same
PROPERTY Ends
CHECK_DEADLOCK FALSE
