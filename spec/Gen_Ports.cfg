SPECIFICATION MSpec
CONSTANTS Objs = {1, 2} Socks = {11} NPorts = 1 MaxPeers = 2 Reuse = TRUE Dual = TRUE CloseFirst = TRUE Depth = 4
CONSTANT Lists <- GenLists
INVARIANT Quiet
CHECK_DEADLOCK FALSE
