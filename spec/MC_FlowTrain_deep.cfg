SPECIFICATION Spec
CONSTANTS MaxEpochs = 8 MaxPatience = 4 Levels = {0, 1, 2, 3}
INVARIANTS Right NotEarly
PROPERTY Ends
CHECK_DEADLOCK FALSE
