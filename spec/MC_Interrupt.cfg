SPECIFICATION Spec
CONSTANTS Top = 2 Targets = {2, 3} MaxIter = 3 MaxFaults = 2 BUG = "none"
INVARIANTS Consistent OnDisk FlowUsable DiskFlow OnlyAtOne Monotone
CHECK_DEADLOCK FALSE
