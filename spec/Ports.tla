-------------------------------- MODULE Ports -------------------------------
(* Listening and being reached. A listener serves its port from a successful listen until it   *)
(* is closed, moved from, destroyed or listens elsewhere; clients wait in its queue and are     *)
(* accepted in order. The port is free again at once: neither the connections a listener has    *)
(* accepted nor ones left over from before (lingering in the kernel) stand in the way.          *)
(*                                                                                            *)
(* Events are whole library calls with what a client of the machine can see of them: Peer is a *)
(* client that tries to connect and is either queued with one of this program's listeners       *)
(* ("us"), with another program's ("other"), or refused ("none").                               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Success == 1   ListenFailed == 2   BindFailed == 3   LookupFailure == 15   AcceptError == 18
Queue == 64    \* what the library is built with
Off == [on |-> FALSE, port |-> 0, fams |-> {}, q |-> <<>>]
Put(fn, k, v) == IF k \in DOMAIN fn THEN [fn EXCEPT ![k] = v] ELSE fn @@ (k :> v)
Del(fn, k) == [x \in DOMAIN fn \ {k} |-> fn[x]]
Range(q) == {q[i] : i \in DOMAIN q}

\* ver: which version of IP each listener was told to use; cn: accepted connections still open;
\* busy: where another program listens
Init(e) == {[li |-> <<>>, ver |-> <<>>, cn |-> {}, busy |-> {}]}

\* the families a listener on an address of family f may come to serve: IPv6 brings IPv4 along,
\* unless the listener was restricted to IPv6
Serves(f, ver) == IF f = 4 THEN {{4}} ELSE IF ver = 6 THEN {{6}, {4, 6}} ELSE {{4, 6}}
Busy(s, port) == {b[2] : b \in {x \in s.busy : x[1] = port}}
Shared(s, o, port) == \E p \in DOMAIN s.li \ {o} : s.li[p].on /\ s.li[p].port = port

StepListen(s, e) ==
  LET o == e.o
      t == [s EXCEPT !.li[o] = Off]              \* whatever it listened to before
      cands == {f \in Range(e.cands) : s.ver[o] \in {0, f}}
      open == {f \in cands : f \notin Busy(s, e.port)}
      clear == {f \in open : f = 4 \/ 4 \notin Busy(s, e.port)}
      must == clear # {} /\ ~e.fault /\ ~Shared(t, o, e.port)
      won == {[t EXCEPT !.li[o] = [on |-> TRUE, port |-> e.port, fams |-> F, q |-> <<>>]] :
                F \in UNION {Serves(f, s.ver[o]) : f \in open}}
  IN IF e.st = Success THEN (IF e.up THEN won ELSE {})
     ELSE IF e.up \/ must \/ e.st \notin {ListenFailed, BindFailed, LookupFailure} THEN {}
     ELSE {t}

\* where the client ends up
StepPeer(s, e) ==
  LET mine == {o \in DOMAIN s.li : s.li[o].on /\ s.li[o].port = e.port /\ e.fam \in s.li[o].fams}
      room == {o \in mine : Len(s.li[o].q) < Queue}
  IN CASE e.by = "us" -> {[s EXCEPT !.li[o].q = Append(@, <<e.fam, e.id>>)] : o \in mine}
       [] e.by = "other" -> IF e.fam \in Busy(s, e.port) THEN {s} ELSE {}
       [] OTHER -> IF room # {} \/ e.fam \in Busy(s, e.port) THEN {} ELSE {s}

Name(p) == (IF p[1] = 4 THEN "10.0.0." ELSE "fd00::") \o ToString(p[2])
Names(p) == {Name(p)} \cup (IF p[1] = 4 THEN {"::ffff:" \o Name(p)} ELSE {})      \* over IPv6
StepAcc(s, e) ==
  LET l == s.li[e.o] IN
  IF ~l.on THEN (IF e.st = AcceptError THEN {s} ELSE {})
  ELSE IF l.q = <<>> THEN (IF e.waits THEN {} ELSE {s})        \* it would have blocked
  ELSE IF ~e.waits THEN {}
  ELSE IF e.fault THEN (IF e.st = AcceptError THEN {s} ELSE {})     \* the client goes on waiting
  ELSE IF e.st = Success /\ e.peer \in Names(Head(l.q)) /\ e.up THEN {[s EXCEPT !.li[e.o].q = Tail(@), !.cn = @ \cup {e.c}]}
  ELSE {}

Step(s, e) ==
  CASE e.e = "New" -> {[s EXCEPT !.li = Put(@, e.o, Off), !.ver = Put(@, e.o, 0)]}
    [] e.e = "Inet" -> {[s EXCEPT !.ver[e.o] = e.v]}
    [] e.e = "Listen" -> StepListen(s, e)
    [] e.e = "Close" -> IF e.up THEN {} ELSE {[s EXCEPT !.li[e.o] = Off]}
    [] e.e = "Gone" -> {[s EXCEPT !.li = Del(@, e.o), !.ver = Del(@, e.o)]}
    [] e.e = "Move" -> IF e.up # s.li[e.o].on THEN {}
                       ELSE {[s EXCEPT !.li = Put([@ EXCEPT ![e.o] = Off], e.c, s.li[e.o]), !.ver = Put(@, e.c, s.ver[e.o])]}
    [] e.e = "Adopt" -> {[s EXCEPT !.li[e.o] = [on |-> TRUE, port |-> e.port, fams |-> {e.fam}, q |-> <<>>]]}
    [] e.e = "Peer" -> StepPeer(s, e)
    [] e.e = "Acc" -> StepAcc(s, e)
    [] e.e = "Use" -> IF e.c \in s.cn /\ e.st # Success THEN {} ELSE {s}     \* an accepted connection outlives its listener
    [] e.e = "Disc" -> {[s EXCEPT !.cn = @ \ {e.c}]}
    [] e.e = "Linger" -> {s}
    [] e.e = "Other" -> {[s EXCEPT !.busy = IF e.on THEN @ \cup {<<e.port, e.fam>>} ELSE @ \ {<<e.port, e.fam>>}]}
    [] OTHER -> {}                       \* a crash, a hang, an exception
=============================================================================
