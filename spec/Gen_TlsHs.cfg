SPECIFICATION MSpec
CONSTANTS MaxCalls = 2 MaxSys = 1 Socks = {1, 2} Lst = 51 Msgs = {1} RecMax = 2 Kinds = {"good", "wrong", "plain"} Gen = TRUE
 Fails = {} HsFails = {"other", "tampered"}
 Ops = {"conn", "acc", "disc", "rel"}
INVARIANTS GenOut
CHECK_DEADLOCK FALSE
