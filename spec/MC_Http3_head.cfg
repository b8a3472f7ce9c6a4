SPECIFICATION MSpec
CONSTANTS Mode = "head"
 Depth = 8
 MaxPiece = 3
 HLim = 17
 BLim = 5
INVARIANTS Conforms BodyRight Prefixes
CHECK_DEADLOCK FALSE
