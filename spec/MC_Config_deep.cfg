CONSTANTS Sizes = {2, 3, 8, 9, 17, 24, 31, 50, 64}
Actives = {2, 4, 5, 6, 8, 13, 20, 33}
Priors = {1, 5, 6, 13, 26, 40, 47, 100}
Freqs = {1, 2, 3, 7}
Esses = {10, 30}
INIT Init
NEXT Next
INVARIANTS Emit WarmupNonEmpty NotMoreThanAsked DefaultPopulation TrainsOften Inverse
CHECK_DEADLOCK FALSE
