SPECIFICATION MSpec
CONSTANTS Objs = {1, 2}
 MaxGen = 3
 MaxN = 1
 NaiveRemove = FALSE
 Depth = 5
INVARIANTS WaitConforms GenOut
CHECK_DEADLOCK FALSE
