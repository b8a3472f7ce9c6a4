SPECIFICATION DSpec
CONSTANTS MaxN = 7
 Alphabet = {0, 1, 127, 255}
INVARIANTS RoundTrip PadOk
CHECK_DEADLOCK FALSE
