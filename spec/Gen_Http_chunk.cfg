SPECIFICATION MSpec
CONSTANTS Mode = "chunk"
 Depth = 6
 MaxPiece = 1
 HLim = 60
 BLim = 100
INVARIANT Emit
CHECK_DEADLOCK FALSE
