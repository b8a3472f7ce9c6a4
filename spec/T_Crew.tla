------------------------------ MODULE T_Crew -----------------------------
EXTENDS Crew, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, S
TInit == l = 1 /\ S = {}
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET e == Trace[l]
                N == IF e.e = "Reset" THEN {CInit} ELSE UNION {CStep(s, e) : s \in S}
            IN /\ S' = N
               /\ (e.e # "Reset" /\ S # {} /\ N = {}) => PrintT("REJECT " \o ToString(l) \o " " \o (IF "ln" \in DOMAIN e THEN ToString(e.ln) ELSE "-"))
TSpec == TInit /\ [][TNext]_<<l, S>>
=============================================================================
