CONSTANTS W = 3
Maps <- MapsQuick
SPECIFICATION Spec
INVARIANTS NothingBad NoDeadlock
PROPERTY Terminates
CHECK_DEADLOCK FALSE
