SPECIFICATION MSpec
CONSTANTS Alpha = {37, 43, 52, 97, 71, 32, 255, 0}
 Depth = 4
 Starts <- NoStart
INVARIANT Emit
CHECK_DEADLOCK FALSE
