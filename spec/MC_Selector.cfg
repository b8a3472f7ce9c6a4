SPECIFICATION MSpec
CONSTANTS Objs = {1, 2, 3}
 MaxGen = 2
 MaxN = 1
 NaiveRemove = FALSE
 Depth = 0
INVARIANTS WaitConforms OpsConform NoDangling Agree
CHECK_DEADLOCK FALSE
