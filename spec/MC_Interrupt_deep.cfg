SPECIFICATION Spec
CONSTANTS Top = 3 Targets = {2, 3} MaxIter = 4 MaxFaults = 3 BUG = "none"
INVARIANTS Consistent OnDisk FlowUsable DiskFlow OnlyAtOne Monotone
CHECK_DEADLOCK FALSE
