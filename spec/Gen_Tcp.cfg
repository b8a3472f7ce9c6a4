SPECIFICATION GSpec
CONSTANTS MaxCalls = 3 MaxCand = 1 Socks = {1, 2} Lsts = {11}
 Outs = {"nbfail", "okp", "soerr"} LOuts = {"bindfail", "lstfail", "ok"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
