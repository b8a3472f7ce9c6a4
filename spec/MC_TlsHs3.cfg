SPECIFICATION MSpec
CONSTANTS MaxCalls = 4 MaxSys = 2 Socks = {1, 2} Lst = 51 Msgs = {1} RecMax = 2 Kinds = {"good", "wrong", "plain", "expired"} Gen = FALSE
 Fails = {"again", "intr", "other", "eof", "tampered"} HsFails = {"intr", "other", "eof", "tampered"}
 Ops = {"conn", "acc", "disc", "rel", "send"}
VIEW HView
INVARIANTS OneOwner NoOrphan OnlyEstablished Proved Told Reads
CHECK_DEADLOCK FALSE
