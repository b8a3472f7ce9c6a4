SPECIFICATION GSpec
CONSTANTS Kind = "sock" How = 2 MaxOps = 4 Patient = TRUE
INVARIANT Quiet
CHECK_DEADLOCK FALSE
