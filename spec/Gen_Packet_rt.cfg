SPECIFICATION GSpec
CONSTANTS Depth = 4 Safe = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE
