SPECIFICATION MSpec
CONSTANTS Depth = 3
 Greedy = FALSE
 Leaky = FALSE
 Masked = FALSE
 Gen = TRUE
 Accept <- MCAccept
INVARIANTS Conforms GenOut
CHECK_DEADLOCK FALSE
