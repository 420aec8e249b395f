CONSTANTS Sizes = {8, 9, 17, 24, 50}
Actives = {4, 6, 8, 13, 20}
Priors = {1, 6, 13, 40, 47}
Freqs = {1, 3}
Esses = {30}
INIT Init
NEXT Next
INVARIANTS Emit WarmupNonEmpty NotMoreThanAsked DefaultPopulation TrainsOften Inverse
CHECK_DEADLOCK FALSE
