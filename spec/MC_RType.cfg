SPECIFICATION SSpec
CONSTANTS Alpha = {71, 69, 84, 80, 65, 83}
 Depth = 6
INVARIANTS RTypeAgrees ReverseTwice
PROPERTY Settles
CHECK_DEADLOCK FALSE
