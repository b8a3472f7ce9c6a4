SPECIFICATION MSpec
CONSTANTS Mode = "len"
 Depth = 5
 MaxPiece = 2
 HLim = 60
 BLim = 3
INVARIANTS Conforms BodyRight Prefixes
CHECK_DEADLOCK FALSE
