SPECIFICATION SSpec
CONSTANTS Alpha = {46, 99, 115, 47, 83}
 Depth = 5
INVARIANT Emit
CHECK_DEADLOCK FALSE
