SPECIFICATION MSpec
CONSTANTS Mode = "len"
 Depth = 7
 MaxPiece = 3
 HLim = 60
 BLim = 3
INVARIANTS Conforms BodyRight Prefixes
CHECK_DEADLOCK FALSE
