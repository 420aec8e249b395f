SPECIFICATION Spec
CONSTANTS MaxOps = 7 BUG = "input-used-up"
VIEW View
INVARIANTS InvAlone InvInputs
PROPERTIES InvOthers
CHECK_DEADLOCK FALSE
