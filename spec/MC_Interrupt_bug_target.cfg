SPECIFICATION Spec
CONSTANTS Top = 2 Targets = {2, 3} MaxIter = 2 MaxFaults = 1 BUG = "target"
INVARIANTS Consistent OnDisk FlowUsable DiskFlow OnlyAtOne Monotone
CHECK_DEADLOCK FALSE
