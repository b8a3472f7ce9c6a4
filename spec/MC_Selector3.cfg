SPECIFICATION MSpec
CONSTANTS Objs = {1, 2, 3}
 MaxGen = 3
 MaxN = 2
 NaiveRemove = FALSE
 Depth = 0
INVARIANTS WaitConforms OpsConform NoDangling Agree
CHECK_DEADLOCK FALSE
