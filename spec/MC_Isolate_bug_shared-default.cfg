SPECIFICATION Spec
CONSTANTS MaxOps = 7 BUG = "shared-default"
VIEW View
INVARIANTS InvAlone InvInputs
PROPERTIES InvOthers
CHECK_DEADLOCK FALSE
