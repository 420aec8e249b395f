SPECIFICATION Spec
CONSTANTS MaxOps = 7 BUG = "input-edited"
VIEW View
INVARIANTS InvAlone InvInputs
PROPERTIES InvOthers
CHECK_DEADLOCK FALSE
