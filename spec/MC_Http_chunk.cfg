SPECIFICATION MSpec
CONSTANTS Mode = "chunk"
 Depth = 5
 MaxPiece = 2
 HLim = 60
 BLim = 5
INVARIANTS Conforms BodyRight Prefixes
CHECK_DEADLOCK FALSE
