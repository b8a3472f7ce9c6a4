SPECIFICATION NSpec
CONSTANTS Bs = {0, 1, 127, 128, 191, 255} Via = "bits"
INVARIANT Emit
CHECK_DEADLOCK FALSE
