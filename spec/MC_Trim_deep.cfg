SPECIFICATION Spec
CONSTANTS MaxN = 4 MaxW = 4 Opts <- MCOpts
INVARIANTS Correct RefAgrees
PROPERTY Terminates
CHECK_DEADLOCK FALSE
