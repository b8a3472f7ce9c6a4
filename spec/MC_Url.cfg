SPECIFICATION MSpec
CONSTANTS Alpha = {97, 58, 47, 63, 35, 56}
 Depth = 6
 Starts <- OneStart
INVARIANTS ScannerAgrees Fixpoint Lossless
CHECK_DEADLOCK FALSE
