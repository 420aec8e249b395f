SPECIFICATION Spec
CONSTANTS G = 4 K = 4 Targets = {2, 3} MaxIter = 3 BUG = "sides"
INVARIANTS Rule Monotone InRange Bracket
PROPERTY SearchEnds
CHECK_DEADLOCK FALSE
