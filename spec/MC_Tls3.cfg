SPECIFICATION MSpec
CONSTANTS MaxCalls = 5 MaxSys = 5 Socks = {1} Lst = 51 Msgs = {1, 3} RecMax = 2 Kinds = {"good"} Gen = FALSE
 Fails = {"again", "intr", "other", "eof", "tampered"} HsFails = {}
 Ops = {"conn", "acc", "disc", "rel", "blk", "rto", "send", "resend", "recv"}
VIEW HView
INVARIANTS OneOwner NoOrphan OnlyEstablished Proved Told Reads
CHECK_DEADLOCK FALSE
