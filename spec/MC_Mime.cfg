SPECIFICATION SSpec
CONSTANTS Alpha = {46, 99, 115, 47, 83}
 Depth = 6
INVARIANTS ExtAgrees ExtOnly
CHECK_DEADLOCK FALSE
