SPECIFICATION MSpec
CONSTANTS Depth = 2
 Greedy = FALSE
 Leaky = FALSE
 Masked = FALSE
 Gen = FALSE
 Accept <- MCAccept
INVARIANTS Conforms Agrees
CHECK_DEADLOCK FALSE
