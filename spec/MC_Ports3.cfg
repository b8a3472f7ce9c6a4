SPECIFICATION MSpec
CONSTANTS Objs = {1, 2} Socks = {11} NPorts = 2 MaxPeers = 2 Reuse = TRUE Dual = TRUE CloseFirst = TRUE Depth = 0
CONSTANT Lists <- GenLists
INVARIANTS Allowed Reachable
VIEW MView
CHECK_DEADLOCK FALSE
