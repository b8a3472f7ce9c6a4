SPECIFICATION VSpec
CONSTANTS Ids = {0, 1}
 MaxOps = 3
 Shared = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE
