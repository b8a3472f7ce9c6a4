SPECIFICATION SSpec
CONSTANTS Kind = "sock" How = 2 MaxOps = 3 Patient = TRUE
INVARIANTS Allowed StillMine
PROPERTY Ends
CHECK_DEADLOCK FALSE
