------------------------------ MODULE T_Packet -----------------------------
EXTENDS Packet, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, S
TInit == l = 1 /\ S = {}
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET e == Trace[l]
                N == IF e.e = "Reset" THEN Init(e) ELSE UNION {Step(s, e) : s \in S}
            IN /\ S' = N
               /\ (e.e # "Reset" /\ S # {} /\ N = {}) => PrintT("REJECT " \o ToString(l) \o " " \o ToJson(S))
TSpec == TInit /\ [][TNext]_<<l, S>>
=============================================================================
