CONSTANTS W = 4
Maps <- MapsDeep
SPECIFICATION Spec
INVARIANTS NothingBad NoDeadlock
PROPERTY Terminates
CHECK_DEADLOCK FALSE
