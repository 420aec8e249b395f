SPECIFICATION Spec
CONSTANTS MaxEpochs = 6 MaxPatience = 3 Levels = {0, 1, 2, 3}
INVARIANTS Right NotEarly
PROPERTY Ends
CHECK_DEADLOCK FALSE
