------------------------------- MODULE MC_Tcp -------------------------------
(* The design of TcpSocket / TcpListener, one step per system call, on a kernel whose calls   *)
(* may fail, checked against the contract Tcp: every event the design produces must be one    *)
(* the contract allows, and the ownership, state and option invariants hold.                  *)
EXTENDS Tcp
CONSTANTS MaxCalls, MaxCand, Socks, Lsts, Outs, LOuts

VARIABLES s, d, ob, calls, nlist, last
vars == <<s, d, ob, calls, nlist, last>>

Idle == [pc |-> "idle"]
O(o) == ob[o]
Snaps == LET F[S \in SUBSET (Socks \cup Lsts)] ==
               IF S = {} THEN <<>>
               ELSE LET o == CHOOSE x \in S : \A y \in S : x <= y IN
                    <<IF o \in Socks THEN [o |-> o, d |-> ob[o].d, c |-> ob[o].d >= 0, k |-> "sock", bl |-> ob[o].bl, rt |-> ob[o].rt, wt |-> ob[o].wt, addr |-> ob[o].addr]
                      ELSE [o |-> o, d |-> ob[o].d, c |-> ob[o].d >= 0, k |-> "lst"]>> \o F[S \ {o}]
         IN F[Socks \cup Lsts]

\* perform event e: the contract must allow it
Do(e) == LET n == Step(s, e) IN /\ Assert(n # {}, <<"contract rejects design", e, s>>)
                                /\ s' = CHOOSE x \in n : TRUE
Lowest == CHOOSE f \in 0..20 : f \notin DOMAIN s.fd /\ \A g \in 0..(f - 1) : g \in DOMAIN s.fd
To(x) == d' = [d EXCEPT !.pc = x]
Same == UNCHANGED <<ob, calls, nlist, last>>

SeqsUpTo(A, n) == UNION {[1..k -> A] : k \in 1..n}
\* nothing is tried after a candidate that works
Sensible(v, good) == \A i \in 1..(Len(v) - 1) : v[i] \notin good

MInit == /\ ob = [o \in Socks \cup Lsts |-> [d |-> -1, bl |-> TRUE, rt |-> Zero2, wt |-> Zero2, addr |-> ""]]
         /\ s = [fd |-> <<>>, lists |-> {}, call |-> NoCall,
                 ob |-> [o \in Socks \cup Lsts |-> [k |-> IF o \in Socks THEN "sock" ELSE "lst", d |-> -1, rt |-> Zero2, wt |-> Zero2, fam |-> 0, bl |-> TRUE]]]
         /\ d = Idle /\ calls = 0 /\ nlist = 1 /\ last = <<>>

Begin(e, nd, h) == /\ d.pc = "idle" /\ calls < MaxCalls
                   /\ Do(e) /\ d' = nd /\ calls' = calls + 1 /\ last' = h /\ UNCHANGED <<ob, nlist>>
StartConn == \E o \in Socks : \E outs \in SeqsUpTo(Outs, MaxCand) : \E rs \in {"ok", "E22"} : \E lk \in BOOLEAN :
   /\ Sensible(outs, {"ok", "okp", "iokp"}) /\ (rs = "E22" => outs[Len(outs)] \in {"ok", "okp", "iokp"}) /\ (~lk => outs = <<"ok">> /\ rs = "ok")
   /\ Begin([e |-> "Call", op |-> "conn", o |-> o, addr |-> "h", port |-> "80", secs |-> 1],
            [pc |-> "drop", o |-> o, op |-> "conn", outs |-> outs, i |-> 0, rs |-> rs, lk |-> lk, list |-> 0, st |-> 0, fd |-> -1, sig |-> FALSE],
            <<"conn", o, outs, rs, lk>>)
StartListen == \E o \in Lsts : \E outs \in SeqsUpTo(LOuts, MaxCand) : \E lk \in BOOLEAN :
   /\ Sensible(outs, {"ok", "lstfail"}) /\ (~lk => outs = <<"ok">>)
   /\ Begin([e |-> "Call", op |-> "listen", o |-> o, port |-> "80"],
            [pc |-> "drop", o |-> o, op |-> "listen", outs |-> outs, i |-> 0, rs |-> "ok", lk |-> lk, list |-> 0, st |-> 0, fd |-> -1],
            <<"listen", o, outs, "ok", lk>>)
StartAcc == \E o \in Lsts : \E c \in Socks : \E ok \in BOOLEAN :
   Begin([e |-> "Call", op |-> "acc", o |-> o, c |-> c], [pc |-> "acc", o |-> o, c |-> c, op |-> "acc", ok |-> ok, st |-> 0, fd |-> -1], <<"acc", o, c, ok>>)
StartDisc == \E o \in Socks \cup Lsts : LET op == IF o \in Socks THEN "disc" ELSE "lclose" IN
   Begin([e |-> "Call", op |-> op, o |-> o], [pc |-> "drop", o |-> o, op |-> op, outs |-> <<>>, st |-> -1], <<op, o>>)
StartBlk == \E o \in Socks : \E v \in BOOLEAN : \E ok \in BOOLEAN :
   Begin([e |-> "Call", op |-> "blk", o |-> o, v |-> v], [pc |-> "blk", o |-> o, op |-> "blk", v |-> v, ok |-> ok, st |-> 0], <<"blk", o, v, ok>>)
StartTo == \E o \in Socks : \E op \in {"rto", "sto"} :
   Begin([e |-> "Call", op |-> op, o |-> o, v |-> <<0, 7>>], [pc |-> "setto", o |-> o, op |-> op, st |-> -1], <<op, o, 7>>)
ExtOpen == /\ d.pc = "idle" /\ calls < MaxCalls /\ Do([e |-> "Ext", fd |-> Lowest, nb |-> FALSE])
           /\ calls' = calls + 1 /\ last' = <<"ext">> /\ UNCHANGED <<d, ob, nlist>>

\* close the descriptor the object holds, if any, then go on
DropFd == /\ d.pc = "drop"
          /\ IF ob[d.o].d >= 0
             THEN Do([e |-> "KClose", fd |-> ob[d.o].d, ok |-> TRUE]) /\ ob' = [ob EXCEPT ![d.o].d = -1] /\ UNCHANGED d
             ELSE UNCHANGED <<s, ob>> /\ To(IF d.op \in {"conn", "listen"} THEN (IF d.i = 0 THEN "lookup" ELSE "next") ELSE "ret")
          /\ UNCHANGED <<calls, nlist, last>>
Lookup == /\ d.pc = "lookup"
          /\ Do([e |-> "KLookup", fam |-> 0, stream |-> TRUE, hasnode |-> d.op = "conn", node |-> IF d.op = "conn" THEN "h" ELSE "", svc |-> "80", passive |-> TRUE,
                 ok |-> d.lk, list |-> IF d.lk THEN nlist ELSE 0, fams |-> IF d.lk THEN [k \in 1..Len(d.outs) |-> 4] ELSE <<>>])
          /\ nlist' = nlist + 1
          /\ d' = IF d.lk THEN [d EXCEPT !.pc = "next", !.list = nlist] ELSE [d EXCEPT !.pc = "ret", !.st = LookupFailure]
          /\ UNCHANGED <<ob, calls, last>>
\* the next candidate, or give up; a failed candidate's descriptor has been dropped
Next1 == /\ d.pc = "next"
         /\ IF d.i = Len(d.outs)
            THEN Do([e |-> "KFree", list |-> d.list])
                 /\ d' = [d EXCEPT !.pc = "ret", !.st = IF d.op = "conn" THEN NoRoute ELSE BindFailed] /\ UNCHANGED ob
            ELSE LET f == IF d.outs[d.i + 1] = "sockfail" THEN -1 ELSE Lowest IN
                 /\ Do([e |-> "KSock", fam |-> 4, fd |-> f, nb |-> FALSE])
                 /\ ob' = [ob EXCEPT ![d.o].d = f]
                 /\ d' = [d EXCEPT !.pc = IF f < 0 THEN "next" ELSE IF d.op = "conn" THEN "nb" ELSE "bind", !.i = @ + 1, !.fd = f]
         /\ UNCHANGED <<calls, nlist, last>>
Out == d.outs[d.i]
Nb == /\ d.pc = "nb" /\ Do([e |-> "KNb", fd |-> d.fd, nb |-> TRUE, ok |-> Out # "nbfail"])
      /\ To(IF Out = "nbfail" THEN "drop" ELSE "connect") /\ Same
Connect == /\ d.pc = "connect"
           /\ Do([e |-> "KConn", fd |-> d.fd, cand |-> d.i, res |-> IF Out = "err" THEN "err" ELSE IF Out = "ok" THEN "ok" ELSE "prog"])
           /\ To(IF Out = "err" THEN "drop" ELSE IF Out = "ok" THEN "free" ELSE "wait") /\ Same
\* a signal comes in the middle of the wait, once
Wait == /\ d.pc = "wait"
        /\ LET i1 == Out = "iokp" /\ ~d.sig IN
           /\ Do([e |-> "KWait", fd |-> d.fd, ms |-> IF d.sig THEN 400 ELSE 1000, adv |-> 600,
                   res |-> IF i1 THEN "intr" ELSE IF Out = "timeout" THEN "timeout" ELSE "ready", est |-> ~i1 /\ Out \in {"okp", "iokp"}])
           /\ d' = [d EXCEPT !.sig = i1, !.pc = IF i1 THEN "wait" ELSE IF Out = "timeout" THEN "drop" ELSE "soerr"]
        /\ Same
SoErr == /\ d.pc = "soerr" /\ Do([e |-> "KSoErr", fd |-> d.fd, ok |-> TRUE, val |-> IF Out \in {"okp", "iokp"} THEN 0 ELSE 111])
         /\ To(IF Out \in {"okp", "iokp"} THEN "free" ELSE "drop") /\ Same
Free == /\ d.pc = "free" /\ Do([e |-> "KFree", list |-> d.list]) /\ To(IF d.op = "conn" THEN "restore" ELSE "listen") /\ Same
Restore == /\ d.pc = "restore" /\ Do([e |-> "KNb", fd |-> d.fd, nb |-> FALSE, ok |-> d.rs = "ok"])
           /\ IF d.rs = "ok" THEN /\ ob' = [ob EXCEPT ![d.o].bl = TRUE, ![d.o].addr = "h:80"]
                                  /\ d' = [d EXCEPT !.pc = "opts", !.st = Success, !.i = 0]
              ELSE UNCHANGED ob /\ d' = [d EXCEPT !.pc = "fail", !.st = 5]
           /\ UNCHANGED <<calls, nlist, last>>
\* give up after the list is gone
Fail == /\ d.pc = "fail" /\ Do([e |-> "KClose", fd |-> ob[d.o].d, ok |-> TRUE]) /\ ob' = [ob EXCEPT ![d.o].d = -1] /\ To("ret")
        /\ UNCHANGED <<calls, nlist, last>>
OptList(o) == << <<"nodelay", <<0, 1>> >>, <<"rcv", ob[o].rt>>, <<"snd", ob[o].wt>> >>
OptObj == IF d.op = "acc" THEN d.c ELSE d.o
Opts == /\ d.pc = "opts"
        /\ LET k == IF "i" \in DOMAIN d THEN d.i ELSE 0 IN
           /\ Do([e |-> "KOpt", fd |-> ob[OptObj].d, opt |-> OptList(OptObj)[k + 1][1], ms |-> OptList(OptObj)[k + 1][2], ok |-> TRUE])
           /\ d' = [d EXCEPT !.i = k + 1, !.pc = IF k = 2 THEN "ret" ELSE "opts"]
        /\ Same
Bind == /\ d.pc = "bind" /\ Do([e |-> "KBind", fd |-> d.fd, cand |-> d.i, ok |-> Out # "bindfail"])
        /\ To(IF Out = "bindfail" THEN "drop" ELSE "free") /\ Same
Listen == /\ d.pc = "listen" /\ Do([e |-> "KListen", fd |-> d.fd, ok |-> Out # "lstfail"])
          /\ d' = [d EXCEPT !.pc = IF Out = "lstfail" THEN "fail" ELSE "ret", !.st = IF Out = "lstfail" THEN ListenFailed ELSE Success] /\ Same
Acc == /\ d.pc = "acc"
       /\ LET up == ob[d.o].d >= 0
              ok == d.ok /\ up
              f == IF ok THEN Lowest ELSE -1 IN
          /\ Do([e |-> "KAcc", fd |-> ob[d.o].d, new |-> f, peer |-> "p", nb |-> FALSE])
          /\ d' = [d EXCEPT !.pc = IF ok THEN "adopt" ELSE "ret", !.st = IF ok THEN Success ELSE AcceptError, !.fd = f]
       /\ Same
Adopt == /\ d.pc = "adopt"
         /\ IF ob[d.c].d >= 0
            THEN Do([e |-> "KClose", fd |-> ob[d.c].d, ok |-> TRUE]) /\ ob' = [ob EXCEPT ![d.c].d = -1] /\ UNCHANGED d
            ELSE /\ UNCHANGED s
                 /\ ob' = [ob EXCEPT ![d.c].d = d.fd, ![d.c].bl = TRUE, ![d.c].addr = "p"]
                 /\ d' = [pc |-> "opts", o |-> d.o, c |-> d.c, op |-> "acc", st |-> d.st, i |-> 0]
         /\ UNCHANGED <<calls, nlist, last>>
Blk == /\ d.pc = "blk"
       /\ LET x == ob[d.o] IN
          IF x.bl = d.v THEN UNCHANGED <<s, ob>> /\ d' = [d EXCEPT !.pc = "ret", !.st = Success]
          ELSE IF x.d < 0 THEN UNCHANGED <<s, ob>> /\ d' = [d EXCEPT !.pc = "ret", !.st = 5]
          ELSE /\ Do([e |-> "KNb", fd |-> x.d, nb |-> ~d.v, ok |-> d.ok])
               /\ ob' = IF d.ok THEN [ob EXCEPT ![d.o].bl = d.v] ELSE ob
               /\ d' = [d EXCEPT !.pc = "ret", !.st = IF d.ok THEN Success ELSE 5]
       /\ UNCHANGED <<calls, nlist, last>>
SetTo == /\ d.pc = "setto" /\ UNCHANGED s
         /\ ob' = IF d.op = "rto" THEN [ob EXCEPT ![d.o].rt = <<0, 7>>] ELSE [ob EXCEPT ![d.o].wt = <<0, 7>>]
         /\ d' = IF ob[d.o].d >= 0 THEN [pc |-> "opts", o |-> d.o, op |-> d.op, st |-> -1, i |-> 0] ELSE [d EXCEPT !.pc = "ret"]
         /\ UNCHANGED <<calls, nlist, last>>
Ret == /\ d.pc = "ret"
       /\ Do([e |-> "Ret", op |-> d.op, st |-> d.st, cnt |-> 0, b |-> <<>>, tailok |-> TRUE, objs |-> Snaps])
       /\ d' = Idle /\ Same
MNext == StartConn \/ StartListen \/ StartAcc \/ StartDisc \/ StartBlk \/ StartTo \/ ExtOpen
         \/ DropFd \/ Lookup \/ Next1 \/ Nb \/ Connect \/ Wait \/ SoErr \/ Free \/ Restore \/ Fail \/ Opts \/ Bind \/ Listen \/ Acc \/ Adopt \/ Blk \/ SetTo \/ Ret
MSpec == MInit /\ [][MNext]_vars

(* ---- invariants -------------------------------------------------------------------------- *)
Held == {ob[o].d : o \in Socks \cup Lsts} \ {-1}
OneOwner == \A o, p \in Socks \cup Lsts : o # p /\ ob[o].d >= 0 => ob[o].d # ob[p].d
HoldsOpen == \A o \in Socks \cup Lsts : ob[o].d >= 0 => ob[o].d \in DOMAIN s.fd /\ s.fd[ob[o].d].own # EXTERNAL
NoOrphan == d.pc = "idle" => \A f \in DOMAIN s.fd : s.fd[f].own # EXTERNAL => f \in Held
AtMostOneLoose == Cardinality({f \in DOMAIN s.fd : s.fd[f].own = FLIGHT /\ f \notin Held}) <= 1
ListsFreed == d.pc = "idle" => s.lists = {}
ModeTrue == d.pc = "idle" => \A o \in Socks : ob[o].d >= 0 => ob[o].bl = ~s.fd[ob[o].d].nb
InForce == d.pc = "idle" => \A o \in Socks : ob[o].d >= 0 => LET x == s.fd[ob[o].d] IN x.rt = ob[o].rt /\ x.wt = ob[o].wt /\ x.nd
OnlyLive == d.pc = "idle" => \A o \in Socks \cup Lsts : ob[o].d >= 0 => s.fd[ob[o].d].ph \in {"est", "listen"}
ExternalsUntouched == [][\A f \in DOMAIN s.fd : s.fd[f].own = EXTERNAL => f \in DOMAIN s'.fd /\ s'.fd[f] = s.fd[f]]_vars
HView == <<s, d, ob, calls, nlist>>
=============================================================================
