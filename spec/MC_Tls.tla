------------------------------- MODULE MC_Tls -------------------------------
(* The design of SSLSocket / SSLListener, one step per system call, over an abstract TLS      *)
(* record layer (a record is a header cell and its payload cells; the record in flight is     *)
(* finished by the call that resumes it) on a kernel whose calls may fail, block, be          *)
(* interrupted or transfer less than asked, checked against the contract Tls.                 *)
EXTENDS Tls, Json
CONSTANTS MaxCalls, Socks, Lst, Msgs, RecMax, Kinds, Fails, HsFails, Ops, MaxSys, Gen

VARIABLES s, d, ob, eng, calls, sys, h
vars == <<s, d, ob, eng, calls, sys, h>>
Idle == [pc |-> "idle"]
LFD == 70
Snaps == LET F[S \in SUBSET (Socks \cup {Lst})] ==
               IF S = {} THEN <<>>
               ELSE LET o == CHOOSE x \in S : \A y \in S : x <= y IN
                    <<IF o \in Socks THEN [o |-> o, d |-> ob[o].d, c |-> ob[o].d >= 0, k |-> "sock", bl |-> ob[o].bl, rt |-> ob[o].rt, wt |-> ob[o].wt, addr |-> ob[o].addr]
                      ELSE [o |-> o, d |-> LFD, c |-> TRUE, k |-> "lst"]>> \o F[S \ {o}]
         IN F[Socks \cup {Lst}]
HolderOf(f) == CHOOSE o \in Socks : ob[o].d = f
Table == LET fs == DOMAIN s.own
             F[S \in SUBSET fs] ==
               IF S = {} THEN <<>>
               ELSE LET f == CHOOSE x \in S : \A y \in S : x <= y IN
                    <<[fd |-> f, hs |-> f \in DOMAIN eng /\ eng[f].hs, got |-> IF f \in DOMAIN eng THEN eng[f].got ELSE 0, ok |-> TRUE,
                       nb |-> IF \E o \in Socks : ob[o].d = f THEN ~ob[HolderOf(f)].bl ELSE FALSE,
                       rt |-> IF \E o \in Socks : ob[o].d = f THEN ob[HolderOf(f)].rt ELSE Zero2,
                       wt |-> IF \E o \in Socks : ob[o].d = f THEN ob[HolderOf(f)].wt ELSE Zero2, nd |-> TRUE, est |-> TRUE]>> \o F[S \ {f}]
         IN F[fs]
Do(e) == LET n == Step(s, e) IN /\ Assert(n # {}, <<"contract rejects design", e, s>>)
                                /\ s' = CHOOSE x \in n : TRUE
Lowest == CHOOSE f \in 0..20 : f \notin DOMAIN s.own /\ \A g \in 0..(f - 1) : g \in DOMAIN s.own
NewEng(srv) == [hs |-> FALSE, srv |-> srv, round |-> 0, out |-> 0, rec |-> 0, dead |-> FALSE, q |-> <<>>, have |-> 0, avail |-> 0, got |-> 0,
                fin |-> FALSE, eofp |-> FALSE, gone |-> FALSE, over |-> FALSE]
To(x) == d' = [d EXCEPT !.pc = x]
Log(r) == h' = IF Gen THEN [h EXCEPT ![Len(h)] = Append(@, r)] ELSE h
Tick == sys < MaxSys /\ sys' = sys + 1
Free == sys' = sys

Obj0 == [d |-> -1, bl |-> TRUE, rt |-> Zero2, wt |-> Zero2, addr |-> "", snt |-> 0, tot |-> 0]
MInit == /\ ob = [o \in Socks |-> Obj0]
         /\ s = [roots |-> {"ca"}, kind |-> "good", own |-> (LFD :> Lst), ss |-> <<>>, call |-> NoCall,
                 ob |-> [o \in Socks \cup {Lst} |-> [k |-> IF o \in Socks THEN "sock" ELSE "lst", d |-> IF o \in Socks THEN -1 ELSE LFD, bl |-> TRUE, rt |-> Zero2, wt |-> Zero2, ver |-> TRUE, fam |-> 0]]]
         /\ d = Idle /\ eng = <<>> /\ calls = 0 /\ sys = 0 /\ h = <<>>
Up1(o) == ob[o].d >= 0
E1(o) == eng[ob[o].d]
CanWait(o) == ~ob[o].bl \/ ob[o].rt # Zero2
\* there is something for a read to return
Ready(o) == LET x == E1(o) IN x.dead \/ x.over \/ x.avail > 0 \/ x.q # <<>> \/ x.eofp

Begin(e, nd, entry) == /\ (Gen /\ h = <<>> => e.op \in {"conn", "acc"}) /\ ("once" \in Ops /\ h # <<>> => e.op \notin {"conn", "acc"}) /\ d.pc = "idle" /\ calls < MaxCalls /\ e.op \in Ops
                       /\ Do(e) /\ d' = nd /\ calls' = calls + 1 /\ sys' = 0 /\ h' = IF Gen THEN Append(h, entry) ELSE h
StartConn == \E o \in Socks : Begin([e |-> "Call", op |-> "conn", o |-> o, host |-> "host.test"], [pc |-> "drop", op |-> "conn", o |-> o, c |-> o, st |-> 0], <<"conn", o>>) /\ UNCHANGED <<ob, eng>>
StartAcc == \E o \in Socks : Begin([e |-> "Call", op |-> "acc", o |-> Lst, c |-> o], [pc |-> "acc", op |-> "acc", o |-> Lst, c |-> o, st |-> 0], <<"acc", Lst, o>>) /\ UNCHANGED <<ob, eng>>
\* disconnecting, and handing the socket no descriptor at all
StartDisc == \E o \in Socks : \E op \in {"disc", "rel"} : Begin([e |-> "Call", op |-> op, o |-> o], [pc |-> "drop", op |-> op, o |-> o, c |-> o, st |-> -1], <<op, o>>) /\ UNCHANGED <<ob, eng>>
StartBlk == \E o \in Socks : \E v \in BOOLEAN : Begin([e |-> "Call", op |-> "blk", o |-> o, v |-> v], [pc |-> "blk", op |-> "blk", o |-> o, c |-> o, v |-> v, st |-> 0], <<"blk", o, v>>) /\ UNCHANGED <<ob, eng>>
StartTo == \E o \in Socks : Begin([e |-> "Call", op |-> "rto", o |-> o, v |-> <<0, 7>>], [pc |-> "ret", op |-> "rto", o |-> o, c |-> o, st |-> -1], <<"rto", o, 7>>)
                            /\ ob' = [ob EXCEPT ![o].rt = <<0, 7>>] /\ UNCHANGED eng
\* a message is completed before the next one begins
StartSend == \E o \in Socks : \E n \in Msgs :
  /\ d.pc = "idle"
  /\ Up1(o) => ob[o].snt = ob[o].tot \/ E1(o).dead
  /\ Begin([e |-> "Call", op |-> "send", o |-> o, n |-> n, sent0 |-> 0, fresh |-> TRUE],
           [pc |-> IF Up1(o) THEN "send" ELSE "ret", op |-> "send", o |-> o, c |-> o, st |-> 20, cnt |-> 0], <<"send", o, n>>)
  /\ ob' = [ob EXCEPT ![o].snt = 0, ![o].tot = n] /\ UNCHANGED eng
StartResend == \E o \in Socks :
  /\ Up1(o) /\ ob[o].snt < ob[o].tot
  /\ Begin([e |-> "Call", op |-> "resend", o |-> o, n |-> ob[o].tot, sent0 |-> ob[o].snt, fresh |-> FALSE],
           [pc |-> "send", op |-> "resend", o |-> o, c |-> o, st |-> 20, cnt |-> 0], <<"resend", o>>)
  /\ UNCHANGED <<ob, eng>>
StartRecv == \E o \in Socks : \E n \in {1, 3} :
  /\ d.pc = "idle"
  /\ Up1(o) => CanWait(o) \/ Ready(o)
  /\ Begin([e |-> "Call", op |-> "recv", o |-> o, n |-> n],
           [pc |-> IF Up1(o) THEN "recv" ELSE "ret", op |-> "recv", o |-> o, c |-> o, n |-> n, st |-> 20, cnt |-> 0, from |-> -1], <<"recv", o, n>>)
  /\ UNCHANGED <<ob, eng>>
\* the other end
PeerKind == \E k \in Kinds : /\ d = Idle /\ "conn" \in Ops /\ k # s.kind /\ calls < MaxCalls /\ Do([e |-> "Peer", kind |-> k]) /\ h' = (IF Gen THEN Append(h, <<"peer", k>>) ELSE h) /\ d' = [pc |-> "idle", k |-> k]
                            /\ UNCHANGED <<ob, eng, calls, sys>>
PeerSend == \E o \in Socks : \E n \in {1, 2} :
  /\ d.pc = "idle" /\ "recv" \in Ops /\ calls < MaxCalls /\ Up1(o) /\ Len(E1(o).q) < 2 /\ ~E1(o).fin /\ ~E1(o).eofp
  /\ Do([e |-> "PSend", fd |-> ob[o].d, n |-> n])
  /\ eng' = [eng EXCEPT ![ob[o].d].q = Append(@, n)] /\ h' = (IF Gen THEN Append(h, <<"psend", o, n>>) ELSE h)
  /\ UNCHANGED <<d, ob, calls, sys>>
PeerEnd == \E o \in Socks : \E how \in {"fin", "eof"} :
  /\ d.pc = "idle" /\ "recv" \in Ops /\ calls < MaxCalls /\ Up1(o) /\ ~E1(o).fin /\ ~E1(o).eofp
  /\ Do([e |-> "PEnd", fd |-> ob[o].d, how |-> how])
  /\ eng' = [eng EXCEPT ![ob[o].d] = IF how = "fin" THEN [@ EXCEPT !.fin = TRUE, !.q = Append(@, 0)] ELSE [@ EXCEPT !.eofp = TRUE]]
  /\ h' = (IF Gen THEN Append(h, <<"pend", o, how>>) ELSE h) /\ UNCHANGED <<d, ob, calls, sys>>

\* give up the descriptor of object d.c, if any, then go on
CloseFd(o) == Do([e |-> "KClose", fd |-> ob[o].d, ok |-> TRUE]) /\ eng' = Del(eng, ob[o].d) /\ ob' = [ob EXCEPT ![o].d = -1]
DropFd ==
        /\ d.pc = "drop"
        /\ IF Up1(d.c) THEN CloseFd(d.c) /\ UNCHANGED d
           ELSE UNCHANGED <<s, ob, eng>> /\ To(CASE d.op = "conn" /\ d.st = 0 -> "sock" [] d.op = "acc" -> "adopt" [] OTHER -> "ret")
        /\ Free /\ UNCHANGED <<calls, h>>
Sock == /\ d.pc = "sock" /\ Do([e |-> "KSock", fam |-> 4, fd |-> Lowest, nb |-> FALSE]) /\ ob' = [ob EXCEPT ![d.c].d = Lowest, ![d.c].bl = TRUE] /\ To("tcp")
        /\ Free /\ UNCHANGED <<eng, calls, h>>
Tcps == IF HsFails = {} THEN {TRUE} ELSE BOOLEAN
Tcp == /\ d.pc = "tcp"
       /\ \E ok \in Tcps :
            /\ Do([e |-> "KConn", fd |-> ob[d.c].d, cand |-> 1, res |-> IF ok THEN "ok" ELSE "err"])
            /\ d' = IF ok THEN [pc |-> "hs", op |-> "conn", o |-> d.o, c |-> d.c, st |-> 0, f |-> ob[d.c].d] ELSE [d EXCEPT !.pc = "drop", !.st = 12]
            /\ eng' = (IF ok THEN Put(eng, ob[d.c].d, NewEng(FALSE)) ELSE eng) /\ Log(<<"tcp", ok>>)
       /\ Free /\ UNCHANGED <<ob, calls>>
Acc == /\ d.pc = "acc"
       /\ \E ok \in Tcps : LET f == IF ok THEN Lowest ELSE -1 IN
            /\ Do([e |-> "KAcc", fd |-> LFD, new |-> f, peer |-> "p", nb |-> FALSE])
            /\ d' = IF ok THEN [pc |-> "hs", op |-> "acc", o |-> d.o, c |-> d.c, st |-> 0, f |-> f] ELSE [d EXCEPT !.pc = "ret", !.st = 13]
            /\ eng' = (IF ok THEN Put(eng, f, NewEng(TRUE)) ELSE eng) /\ Log(<<"tcp", ok>>)
       /\ Free /\ UNCHANGED <<ob, calls>>
\* the handshake: four flights, alternating; an authenticated client checks the certificate in the second
HsTx(x) == IF x.srv THEN x.round % 2 = 1 ELSE x.round % 2 = 0
Refuses == d.op = "conn" /\ s.ob[d.o].ver /\ Speaks(s.kind) /\ ~Trusted(s, s.kind, "host.test")
Abort(st) == IF d.op = "conn" THEN [pc |-> "drop", op |-> "conn", o |-> d.o, c |-> d.c, st |-> st] ELSE [pc |-> "forget", op |-> "acc", o |-> d.o, c |-> d.c, st |-> st, f |-> d.f]
Hs == /\ d.pc = "hs"
      /\ LET x == eng[d.f] IN
         IF x.round = 4 THEN /\ d' = (IF d.op = "conn" THEN [d EXCEPT !.pc = "ret", !.st = Success] ELSE [d EXCEPT !.pc = "drop", !.st = Success])
                             /\ eng' = [eng EXCEPT ![d.f].hs = TRUE]
                             /\ ob' = IF d.op = "conn" THEN [ob EXCEPT ![d.c].addr = "host.test:443", ![d.c].snt = 0, ![d.c].tot = 0] ELSE ob
                             /\ Free /\ UNCHANGED <<s, h>>
         ELSE \E r \in HsFails \cup {"done"} :
              /\ (r \in {"eof", "tampered"} => ~HsTx(x))
              /\ (r = "done" /\ ~HsTx(x) => Speaks(s.kind))
              /\ (IF r = "done" THEN Free ELSE Tick)
              /\ Do(IF HsTx(x) THEN [e |-> "KTx", fd |-> d.f, res |-> IF r = "done" THEN "all" ELSE r] ELSE [e |-> "KRx", fd |-> d.f, res |-> IF r = "done" THEN "data" ELSE r])
              /\ Log(<<IF HsTx(x) THEN "tx" ELSE "rx", r>>)
              /\ eng' = (IF r = "done" THEN [eng EXCEPT ![d.f].round = @ + 1] ELSE eng)
              /\ d' = IF r \in {"other", "eof", "tampered"} THEN Abort(19)
                      ELSE IF r = "done" /\ x.round = 1 /\ Refuses THEN Abort(19) ELSE d
              /\ UNCHANGED ob
      /\ UNCHANGED calls
Forget == /\ d.pc = "forget" /\ Do([e |-> "KClose", fd |-> d.f, ok |-> TRUE]) /\ eng' = Del(eng, d.f) /\ To("ret") /\ Free /\ UNCHANGED <<ob, calls, h>>
Adopt == /\ d.pc = "adopt" /\ ob' = [ob EXCEPT ![d.c].d = d.f, ![d.c].bl = TRUE, ![d.c].addr = "p", ![d.c].snt = 0, ![d.c].tot = 0] /\ To("ret") /\ Free /\ UNCHANGED <<s, eng, calls, h>>
Blk == /\ d.pc = "blk"
       /\ IF ~Up1(d.o) THEN UNCHANGED <<s, ob, h>> /\ d' = [d EXCEPT !.pc = "ret", !.st = 19]
          ELSE \E ok \in BOOLEAN : /\ Do([e |-> "KNb", fd |-> ob[d.o].d, nb |-> ~d.v, ok |-> ok])
                                   /\ ob' = (IF ok THEN [ob EXCEPT ![d.o].bl = d.v] ELSE ob)
                                   /\ d' = [d EXCEPT !.pc = "ret", !.st = IF ok THEN Success ELSE 19] /\ Log(<<"nb", ok>>)
       /\ Free /\ UNCHANGED <<eng, calls>>
Now(o) == IF ob[o].bl THEN Timeout ELSE WouldBlock
Send == /\ d.pc = "send"
        /\ LET o == d.o
               f == ob[o].d
               x == eng[f] IN
           IF x.dead \/ x.over THEN To("ret") /\ Free /\ UNCHANGED <<s, ob, eng, h>>
           ELSE IF x.out = 0 /\ ob[o].snt = ob[o].tot THEN d' = [d EXCEPT !.pc = "ret", !.st = Success] /\ Free /\ UNCHANGED <<s, ob, eng, h>>
           ELSE IF x.out = 0 THEN LET k == MinI(RecMax, ob[o].tot - ob[o].snt) IN
                eng' = [eng EXCEPT ![f].out = k + 1, ![f].rec = k] /\ Free /\ UNCHANGED <<s, ob, d, h>>
           ELSE /\ Tick
                /\ \E r \in (Fails \ {"eof", "tampered"}) \cup {"all", "part"} :
                     /\ (r = "part" => x.out > 1) /\ (r = "again" => ~ob[o].bl \/ ob[o].wt # Zero2)
                     /\ Do([e |-> "KTx", fd |-> f, res |-> r]) /\ Log(<<"tx", r>>)
                     /\ LET left == CASE r = "all" -> 0 [] r = "part" -> x.out - 1 [] OTHER -> x.out IN
                        /\ eng' = [eng EXCEPT ![f].out = left, ![f].rec = IF left = 0 THEN 0 ELSE @, ![f].got = IF left = 0 THEN @ + x.rec ELSE @, ![f].dead = r = "other"]
                        /\ ob' = IF left = 0 THEN [ob EXCEPT ![o].snt = @ + x.rec] ELSE ob
                     /\ d' = CASE r = "again" -> [d EXCEPT !.pc = "ret", !.st = Now(o)] [] r = "other" -> [d EXCEPT !.pc = "ret", !.st = 19] [] OTHER -> d
        /\ UNCHANGED calls
Recv == /\ d.pc = "recv"
        /\ LET o == d.o
               f == ob[o].d
               x == eng[f]
               whole == x.q # <<>> /\ x.have = Head(x.q) + 1 IN
           IF x.avail > 0 THEN LET k == MinI(d.n, x.avail) IN
                /\ eng' = [eng EXCEPT ![f].avail = @ - k] /\ d' = [d EXCEPT !.pc = "ret", !.st = Success, !.cnt = k, !.from = s.ss[f].cons]
                /\ Free /\ UNCHANGED <<s, ob, h>>
           ELSE IF x.over THEN d' = [d EXCEPT !.pc = "ret", !.st = Disconnected] /\ Free /\ UNCHANGED <<s, ob, eng, h>>
           ELSE IF x.dead THEN To("ret") /\ Free /\ UNCHANGED <<s, ob, eng, h>>
           ELSE IF whole THEN /\ eng' = [eng EXCEPT ![f].q = Tail(@), ![f].have = 0, ![f].avail = Head(x.q), ![f].over = Head(x.q) = 0]
                              /\ Free /\ UNCHANGED <<s, ob, d, h>>
           ELSE /\ Tick
                /\ \E r \in Fails \cup {"data"} :
                     /\ (r = "data" => x.q # <<>>) /\ (r = "tampered" => x.q # <<>> /\ x.have > 0)
                     /\ (r = "again" => CanWait(o))
                     /\ (r = "eof" /\ x.q = <<>> => x.eofp)
                     /\ (x.q = <<>> /\ x.eofp => r \in {"eof", "other", "intr"})
                     /\ Do([e |-> "KRx", fd |-> f, res |-> r]) /\ Log(<<"rx", r>>)
                     /\ eng' = CASE r = "data" -> [eng EXCEPT ![f].have = @ + 1] [] r = "other" -> [eng EXCEPT ![f].dead = TRUE]
                                 [] r = "tampered" -> [eng EXCEPT ![f].dead = TRUE]
                                 [] r = "eof" -> [eng EXCEPT ![f].over = TRUE] [] OTHER -> eng
                     /\ d' = CASE r = "again" -> [d EXCEPT !.pc = "ret", !.st = Now(o)] [] r \in {"other", "tampered"} -> [d EXCEPT !.pc = "ret", !.st = 19]
                               [] r = "eof" -> [d EXCEPT !.pc = "ret", !.st = Disconnected] [] OTHER -> d
                /\ UNCHANGED ob
        /\ UNCHANGED calls
Ret == /\ d.pc = "ret"
       /\ Do([e |-> "Ret", op |-> d.op, st |-> d.st, cnt |-> IF d.op \in {"send", "resend"} THEN ob[d.o].snt ELSE IF d.op = "recv" THEN d.cnt ELSE 0,
              from |-> IF d.op = "recv" THEN d.from ELSE -1, tailok |-> TRUE, threw |-> FALSE, clear |-> FALSE, objs |-> Snaps, fds |-> Table])
       /\ d' = Idle /\ sys' = 0 /\ UNCHANGED <<ob, eng, calls, h>>
MNext == StartConn \/ StartAcc \/ StartDisc \/ StartBlk \/ StartTo \/ StartSend \/ StartResend \/ StartRecv \/ PeerKind \/ PeerSend \/ PeerEnd
         \/ DropFd \/ Sock \/ Tcp \/ Acc \/ Hs \/ Forget \/ Adopt \/ Blk \/ Send \/ Recv \/ Ret
MSpec == MInit /\ [][MNext]_vars

\* ---- invariants
Rest == d.pc = "idle"
OneOwner == \A o, p \in Socks : o # p /\ Up1(o) => ob[o].d # ob[p].d
NoOrphan == Rest => DOMAIN s.own = {ob[o].d : o \in {x \in Socks : Up1(x)}} \cup {LFD}
OnlyEstablished == Rest => \A o \in Socks : Up1(o) => E1(o).hs
\* an authenticated client only ever speaks to an endpoint that proved the name it asked for
Proved == Rest => \A o \in Socks : Up1(o) /\ ~E1(o).srv => Trusted(s, s.ss[ob[o].d].kind, "host.test")
\* what the caller was told was sent is exactly what the other end has, up to the record in flight
Told == Rest => \A o \in Socks : Up1(o) => LET x == s.ss[ob[o].d] IN x.rep <= E1(o).got /\ E1(o).got <= x.att
Reads == Rest => \A o \in Socks : Up1(o) => s.ss[ob[o].d].cons <= s.ss[ob[o].d].psent
HView == <<s, d, ob, eng, calls, sys>>
\* reachability of what the invariants talk about
GenOut == (Gen /\ d.pc = "idle" /\ calls = MaxCalls) => PrintT("GEN " \o ToJson(h))
=============================================================================
