SPECIFICATION SSpec
CONSTANTS Alpha = {71, 69, 84, 80, 65, 83}
 Depth = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE
