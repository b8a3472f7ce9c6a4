SPECIFICATION SSpec
CONSTANTS Kind = "lst" How = 0 MaxOps = 3 Patient = TRUE
INVARIANTS Allowed StillMine
PROPERTY Ends
CHECK_DEADLOCK FALSE
