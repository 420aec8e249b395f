SPECIFICATION Spec
CONSTANTS Needs <- MCNeeds MaxCmds = 4 BUG = "one-more"
INVARIANTS InvPlain
PROPERTIES InvStop InvGrow
VIEW View
CHECK_DEADLOCK FALSE
