------------------------------- MODULE Gen_Tcp ------------------------------
(* Enumerates histories of library calls, with the outcome of every system call in them, from the design model. *)
EXTENDS MC_Tcp, Json
VARIABLE h
GInit == MInit /\ h = <<>>
GNext == MNext /\ h' = IF calls' # calls THEN Append(h, last') ELSE h
Emit == (d.pc = "idle" /\ calls = MaxCalls) => PrintT("GEN " \o ToJson(h))
GSpec == GInit /\ [][GNext]_<<vars, h>>
=============================================================================
