SPECIFICATION Spec
CONSTANTS Needs <- MCNeeds MaxCmds = 4 BUG = "none"
INVARIANTS InvPlain
PROPERTIES InvStop InvGrow
VIEW View
CHECK_DEADLOCK FALSE
