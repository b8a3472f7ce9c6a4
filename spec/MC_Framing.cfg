SPECIFICATION MSpec
CONSTANTS MaxStall = 3
 Bodies <- MCBodies
INVARIANTS ReceivedIsPrefix NothingLostQuietly
PROPERTIES AllArrive
CHECK_DEADLOCK FALSE
