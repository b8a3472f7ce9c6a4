SPECIFICATION MSpec
CONSTANTS MaxCalls = 7 MaxSys = 4 Socks = {1} Lst = 51 Msgs = {1, 3} RecMax = 2 Kinds = {"good"} Gen = TRUE
 Fails = {"again", "intr", "other", "eof", "tampered"} HsFails = {}
 Ops = {"once", "conn", "acc", "blk", "rto", "send", "resend", "recv", "disc", "rel"}
INVARIANTS GenOut
CHECK_DEADLOCK FALSE
