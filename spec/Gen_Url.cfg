SPECIFICATION MSpec
CONSTANTS Alpha = {97, 58, 47, 63, 35, 56}
 Depth = 5
 Starts <- OneStart
INVARIANT Emit
CHECK_DEADLOCK FALSE
