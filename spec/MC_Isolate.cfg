SPECIFICATION Spec
CONSTANTS MaxOps = 7 BUG = "none"
VIEW View
INVARIANTS InvAlone InvInputs
PROPERTIES InvOthers
CHECK_DEADLOCK FALSE
