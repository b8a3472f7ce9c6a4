SPECIFICATION NSpec
CONSTANTS Bs = {0, 1, 63, 64, 127, 128, 191, 255} Via = "bits"
INVARIANTS Order Lossless
CHECK_DEADLOCK FALSE
