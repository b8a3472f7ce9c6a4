SPECIFICATION MSpec
CONSTANTS MaxCalls = 3 MaxSys = 1 Socks = {1, 2} Lst = 51 Msgs = {1} RecMax = 2 Kinds = {"good", "wrong", "plain"} Gen = FALSE
 Fails = {"again", "intr", "other", "eof", "tampered"} HsFails = {"intr", "other", "eof", "tampered"}
 Ops = {"conn", "acc", "disc", "rel"}
VIEW HView
INVARIANTS OneOwner NoOrphan OnlyEstablished Proved Told Reads
CHECK_DEADLOCK FALSE
