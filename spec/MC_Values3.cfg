SPECIFICATION VSpec
CONSTANTS Ids = {0, 1, 2}
 MaxOps = 6
 Shared = FALSE
INVARIANTS Allowed Same Enough
VIEW View
CHECK_DEADLOCK FALSE
