SPECIFICATION MSpec
CONSTANTS Mode = "head"
 Depth = 7
 MaxPiece = 2
 HLim = 17
 BLim = 5
INVARIANTS Conforms BodyRight Prefixes
CHECK_DEADLOCK FALSE
