SPECIFICATION MSpec
CONSTANTS MaxCalls = 8 MaxSys = 4 Socks = {1} Lst = 51 Msgs = {1, 3} RecMax = 2 Kinds = {"good"} Gen = TRUE
 Fails = {"again", "intr"} HsFails = {}
 Ops = {"once", "conn", "acc", "blk", "rto", "send", "resend", "recv"}
INVARIANTS GenOut
CHECK_DEADLOCK FALSE
