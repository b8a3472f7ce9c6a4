SPECIFICATION GSpec
CONSTANTS Depth = 3 Safe = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
