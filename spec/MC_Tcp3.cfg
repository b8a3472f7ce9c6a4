SPECIFICATION MSpec
CONSTANTS MaxCalls = 3 MaxCand = 2 Socks = {1, 2} Lsts = {11}
 Outs = {"sockfail", "nbfail", "err", "ok", "okp", "iokp", "soerr", "timeout"} LOuts = {"sockfail", "bindfail", "lstfail", "ok"}
VIEW HView
INVARIANTS OneOwner HoldsOpen NoOrphan AtMostOneLoose ListsFreed ModeTrue InForce OnlyLive
PROPERTY ExternalsUntouched
CHECK_DEADLOCK FALSE
