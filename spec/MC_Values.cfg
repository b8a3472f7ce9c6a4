SPECIFICATION VSpec
CONSTANTS Ids = {0, 1}
 MaxOps = 5
 Shared = FALSE
INVARIANTS Allowed Same Enough
VIEW View
CHECK_DEADLOCK FALSE
