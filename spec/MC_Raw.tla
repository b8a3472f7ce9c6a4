------------------------------- MODULE MC_Raw -------------------------------
(* The raw send and receive loops, one step per system call, against the contract in Tcp, for every *)
(* outcome of every system call. The kernel's own log of accepted bytes is kept independently:       *)
(* what it took is always a prefix of the message, each byte once.                                   *)
EXTENDS Tcp, Json
CONSTANTS Size, Cap, MaxSys

VARIABLES s, pc, nb, sent, wire, left, h
vars == <<s, pc, nb, sent, wire, left, h>>
Msg == [i \in 1..Size |-> 10 + i]
Do(e) == LET n == Step(s, e) IN /\ Assert(n # {}, <<"contract rejects design", e, s>>) /\ s' = CHOOSE x \in n : TRUE
Snap1 == << [o |-> 1, d |-> 5, c |-> TRUE, k |-> "sock", bl |-> ~nb, rt |-> Zero2, wt |-> Zero2, addr |-> "h:80"] >>
RInit == /\ nb \in BOOLEAN /\ pc = "idle" /\ sent = 0 /\ wire = <<>> /\ left = MaxSys /\ h = <<>>
         /\ s = [fd |-> 5 :> [NewFd(1, nb, "est", 1) EXCEPT !.nd = TRUE], lists |-> {}, call |-> NoCall,
                 ob |-> 1 :> [k |-> "sock", d |-> 5, rt |-> Zero2, wt |-> Zero2, fam |-> 0, bl |-> ~nb]]
CallSend == /\ pc = "idle" /\ left > 0 /\ sent < Size
            /\ Do([e |-> "Call", op |-> "sraw", o |-> 1, b |-> Msg, sent0 |-> sent]) /\ pc' = "send"
            /\ h' = Append(h, <<"sraw", sent>>) /\ UNCHANGED <<nb, sent, wire, left>>
Rest == Drop(Msg, sent)
Send == /\ pc = "send"
        /\ IF sent = Size THEN pc' = "done" /\ UNCHANGED <<s, sent, wire, left, h>>
           ELSE \E r \in (IF left = 0 THEN {Size - sent} ELSE 1..MinI(Cap, Size - sent)) \cup (IF left = 0 THEN {} ELSE {-4, -11, -32}) :
                  /\ left' = IF left = 0 THEN 0 ELSE left - 1
                  /\ Do([e |-> "KSend", fd |-> 5, b |-> Rest, res |-> IF r > 0 THEN r ELSE -1,
                         err |-> CASE r = -4 -> "intr" [] r = -11 -> "again" [] r = -32 -> "other" [] OTHER -> ""])
                  /\ h' = Append(h, <<"k", r>>)
                  /\ IF r > 0 THEN sent' = sent + r /\ wire' = wire \o Take(Rest, r) /\ UNCHANGED pc
                     ELSE UNCHANGED <<sent, wire>> /\ pc' = CASE r = -4 -> "send" [] r = -11 -> "again" [] OTHER -> "err"
        /\ UNCHANGED nb
RetSend == /\ pc \in {"done", "again", "err"}
           /\ Do([e |-> "Ret", op |-> "sraw", st |-> CASE pc = "done" -> Success [] pc = "err" -> SendError [] OTHER -> IF nb THEN WouldBlock ELSE Timeout,
                  cnt |-> sent, b |-> <<>>, tailok |-> TRUE, objs |-> Snap1])
           /\ pc' = (IF pc = "err" THEN "dead" ELSE "idle") /\ UNCHANGED <<nb, sent, wire, left, h>>
RNext == CallSend \/ Send \/ RetSend
RSpec == RInit /\ [][RNext]_vars
WirePrefix == wire = Take(Msg, sent)
Emit == (pc = "dead" \/ (pc = "idle" /\ h # <<>> /\ (left = 0 \/ sent = Size))) => PrintT("GEN " \o ToJson(<<nb, h>>))
=============================================================================
