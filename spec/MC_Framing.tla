----------------------------- MODULE MC_Framing ----------------------------
(* Small-step receiver against the big-step contract used for trace validation.            *)
(*                                                                                         *)
(* The transport delivers two packets split into arbitrary segments, with stalls, timeouts *)
(* and a possible end or error at any byte. The receiver reads header then body, piecewise.*)
(* Whenever it finishes a call, its outcome must be one the contract PRecv allows, and the *)
(* packets it has received are a prefix of those sent.                                     *)
EXTENDS Framing
CONSTANTS MaxStall, Bodies
MCBodies == << <<65, 66>>, <<>>, <<67>> >>

VARIABLES todo,     \* bytes the transport has not delivered yet
          call,     \* tokens that reads of the current call have met so far (what the contract is evaluated on)
          got,      \* bytes of the current message read so far
          rcvd,     \* packets received
          stalls, dead, last
vars == <<todo, call, got, rcvd, stalls, dead, last>>

Sent == Bodies
WireOf(bs) == Concat([i \in 1..Len(bs) |-> PacketWire(bs[i])])
MInit == todo = WireOf(Sent) /\ call = <<>> /\ got = <<>> /\ rcvd = <<>> /\ stalls = 0 /\ dead = FALSE /\ last = 0

HeadLen == 4
BodyLen == Num32(got[1], got[2], got[3], got[4])
Need == IF Len(got) < HeadLen THEN HeadLen - Len(got) ELSE HeadLen + BodyLen - Len(got)
Complete(g) == Len(g) >= 4 /\ Len(g) = 4 + Num32(g[1], g[2], g[3], g[4])

Agree(tokens, ok, st, body) ==
  LET r == PRecv(St(tokens, <<>>)) IN
  /\ r.ok = ok
  /\ (IF ok THEN r.body = body ELSE st \in r.sts)

\* a read returns k bytes
Deliver == /\ ~dead /\ todo # <<>>
           /\ \E k \in 1..MinI(Need, Len(todo)) :
                LET g == got \o Take(todo, k)
                    c == call \o Take(todo, k) IN
                /\ todo' = Drop(todo, k)
                /\ IF Complete(g)
                   THEN /\ rcvd' = Append(rcvd, Drop(g, 4)) /\ got' = <<>> /\ call' = <<>> /\ last' = Success
                        /\ Assert(Agree(c, TRUE, Success, Drop(g, 4)), <<"contract rejects success", c>>)
                   ELSE got' = g /\ call' = c /\ UNCHANGED <<rcvd, last>>
                /\ UNCHANGED <<stalls, dead>>
Stall == /\ ~dead /\ stalls < MaxStall /\ stalls' = stalls + 1
         /\ IF got = <<>> THEN /\ last' = WouldBlock /\ call' = <<>>
                               /\ Assert(Agree(<<WB>>, FALSE, WouldBlock, <<>>), "contract rejects would-block")
            ELSE call' = Append(call, WB) /\ UNCHANGED last          \* retried
         /\ UNCHANGED <<todo, got, rcvd, dead>>
Fault == /\ ~dead
         /\ \E x \in {TO, EOS, ERR} :
              LET st == IF got = <<>> /\ x = TO THEN Timeout ELSE Disconnected IN
              /\ Assert(Agree(Append(call, x), FALSE, st, <<>>), <<"contract rejects failure", call, x>>)
              /\ last' = st /\ dead' = (st # Timeout) /\ call' = <<>>
         /\ stalls < MaxStall /\ stalls' = stalls + 1
         /\ UNCHANGED <<todo, got, rcvd>>
MNext == Deliver \/ Stall \/ Fault
MSpec == MInit /\ [][MNext]_vars /\ WF_vars(Deliver)

ReceivedIsPrefix == Len(rcvd) <= Len(Sent) /\ \A i \in 1..Len(rcvd) : rcvd[i] = Sent[i]
NothingLostQuietly == (last \in {WouldBlock, Timeout} /\ ~dead /\ got = <<>> /\ call = <<>>)
                      => WireOf(rcvd) \o todo = WireOf(Sent)
AllArrive == <>(dead \/ rcvd = Sent)

\* frame codec: decoding an encoded frame gives it back, whatever follows it
ASSUME \A role \in {"client", "server"} : \A n \in {0, 1, 2, 5, 125, 126, 127, 130} : \A fin \in BOOLEAN : \A op \in {0, 1, 2, 8, 9, 10} :
         LET body == [i \in 1..n |-> (i * 7 + n) % 256]
             w == FrameWire(fin, op, role, body, <<17, 0, 255, 128>>)
             r == FRecv(St(w \o <<1, 2, 3>>, <<>>),
                        IF role = "client" THEN "server" ELSE "client")
         IN r.ok /\ r.body = body /\ r.fin = fin /\ r.op = op /\ r.c.p = Len(w) /\ ~r.opt
\* the limit is exact
ASSUME \A n \in 0..5 : \A lim \in 1..5 :
         LET s == [St(PacketWire([i \in 1..n |-> i]), <<>>) EXCEPT !.lim = lim] IN
         PRecv(s).ok = (n <= lim)
=============================================================================
