------------------------------- MODULE MC_Net -------------------------------
(* Byte order conversion of a 4-byte number on a little-endian host. Via is how the swapped   *)
(* number travels: as bits, or as a float, which a processor may quieten when it is a          *)
(* signalling NaN (and that is not lossless).                                                 *)
EXTENDS Api, Json
CONSTANTS Bs, Via
VARIABLES host, wire, back, pc
vars == <<host, wire, back, pc>>
Words == [1..4 -> Bs]
\* memory order on the host: least significant first
Value(m) == m[1] + 256 * m[2] + 65536 * m[3]          \* the low 24 bits; the fourth byte is kept apart, within TLC's integers
BigEndian(m) == << m[4], (Value(m) \div 65536) % 256, (Value(m) \div 256) % 256, Value(m) % 256 >>
Exponent(m) == (m[4] % 128) * 2 + (m[3] \div 128)
Signalling(m) == Exponent(m) = 255 /\ (m[3] % 128) < 64 /\ (m[3] % 128) + m[2] + m[1] > 0
Carry(m) == IF Via = "float" /\ Signalling(m) THEN [m EXCEPT ![3] = @ + 64] ELSE m
NInit == host \in Words /\ wire = <<>> /\ back = <<>> /\ pc = "out"
NNext == \/ pc = "out" /\ wire' = Carry(Reverse(host)) /\ pc' = "in" /\ UNCHANGED <<host, back>>
         \/ pc = "in" /\ back' = Carry(Reverse(wire)) /\ pc' = "done" /\ UNCHANGED <<host, wire>>
NSpec == NInit /\ [][NNext]_vars
Order == wire # <<>> => wire = BigEndian(host) /\ AStep([v |-> 0], [e |-> "Net", i |-> host, o |-> wire]) # {}
Lossless == pc = "done" => back = host
Emit == pc = "done" => PrintT("GEN " \o ToJson(host))
=============================================================================
