SPECIFICATION MSpec
CONSTANTS Mode = "head"
 Depth = 7
 MaxPiece = 1
 HLim = 60
 BLim = 100
INVARIANT Emit
CHECK_DEADLOCK FALSE
