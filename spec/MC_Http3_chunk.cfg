SPECIFICATION MSpec
CONSTANTS Mode = "chunk"
 Depth = 7
 MaxPiece = 3
 HLim = 60
 BLim = 5
INVARIANTS Conforms BodyRight Prefixes
CHECK_DEADLOCK FALSE
