SPECIFICATION SSpec
CONSTANTS Alpha = {46, 99, 115, 47, 83}
 Depth = 7
INVARIANTS ExtAgrees ExtOnly
CHECK_DEADLOCK FALSE
