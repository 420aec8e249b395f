SPECIFICATION Spec
CONSTANTS G = 5 K = 5 Targets = {2, 3, 4} MaxIter = 3 BUG = "none"
INVARIANTS Rule Monotone InRange Bracket
PROPERTY SearchEnds
CHECK_DEADLOCK FALSE
