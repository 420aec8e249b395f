SPECIFICATION Spec
CONSTANTS MaxN = 3 MaxW = 3 Opts <- MCOpts
INVARIANTS Correct RefAgrees
PROPERTY Terminates
CHECK_DEADLOCK FALSE
