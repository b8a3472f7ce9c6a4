SPECIFICATION CSpec
CONSTANTS
  Combo = 1
  Gen = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
