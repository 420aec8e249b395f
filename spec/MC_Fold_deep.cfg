SPECIFICATION Spec
CONSTANTS R = 60 W = 9
INVARIANTS Right Unique Same
PROPERTY Ends
CHECK_DEADLOCK FALSE
