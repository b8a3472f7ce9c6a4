SPECIFICATION MSpec
CONSTANTS Alpha = {37, 43, 52, 97, 71, 32, 255, 0}
 Depth = 5
 Starts <- NoStart
INVARIANTS CodecOk DecodeAllowed
CHECK_DEADLOCK FALSE
