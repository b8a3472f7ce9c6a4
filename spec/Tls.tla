--------------------------------- MODULE Tls --------------------------------
(* TLS sockets and listeners: what a user of SSLSocket and SSLListener may rely on, over the  *)
(* system calls the library makes and the plain TLS endpoint at the other end.                *)
(*                                                                                           *)
(* The state holds the descriptors the library has open and who owns them, one session per   *)
(* connection (how far each direction of its byte stream has come, as the caller was told     *)
(* and as the other end saw it, and what has gone wrong with it), the library objects, and    *)
(* the library call in progress.                                                              *)
EXTENDS Bytes, IOUtils
PROP == IF "PROP" \in DOMAIN IOEnv THEN IOEnv.PROP ELSE "ALL"
On(p) == PROP \in {p, "ALL"}

Success == 1   Disconnected == 4   WouldBlock == 6   Timeout == 21
LookupFailure == 15   ListenFailed == 2   BindFailed == 3   NoRoute == 20
Progress == {Success, WouldBlock, Timeout}
FLIGHT == 0
Zero2 == <<0, 0>>
Put(fn, k, v) == IF k \in DOMAIN fn THEN [fn EXCEPT ![k] = v] ELSE fn @@ (k :> v)
Del(fn, k) == [x \in DOMAIN fn \ {k} |-> fn[x]]
NoCall == [op |-> "none", o |-> 0]

(* ---- certificates: the names a server proves with them, the authority behind them, validity *)
HostTest == {"host.test", "HOST.TEST", "Host.Test"}
Certs == [good     |-> [hosts |-> HostTest, ca |-> "ca", valid |-> TRUE],
          cnonly   |-> [hosts |-> HostTest, ca |-> "ca", valid |-> TRUE],
          chain    |-> [hosts |-> HostTest, ca |-> "ca", valid |-> TRUE],
          multi    |-> [hosts |-> HostTest \cup {"one.test"}, ca |-> "ca", valid |-> TRUE],
          wild     |-> [hosts |-> {"a.host.test", "b.host.test"}, ca |-> "ca", valid |-> TRUE],
          wrong    |-> [hosts |-> {"other.test"}, ca |-> "ca", valid |-> TRUE],
          sanother |-> [hosts |-> {"other.test"}, ca |-> "ca", valid |-> TRUE],
          expired  |-> [hosts |-> HostTest, ca |-> "ca", valid |-> FALSE],
          future   |-> [hosts |-> HostTest, ca |-> "ca", valid |-> FALSE],
          foreign  |-> [hosts |-> HostTest, ca |-> "ca2", valid |-> TRUE],
          self     |-> [hosts |-> HostTest, ca |-> "itself", valid |-> TRUE],
          broken   |-> [hosts |-> HostTest, ca |-> "unknown", valid |-> TRUE],
          byleaf   |-> [hosts |-> HostTest, ca |-> "no authority", valid |-> TRUE]]
Roots(what) == CASE what = "ca" -> {"ca"} [] what = "ca2" -> {"ca2"} [] what = "both" -> {"ca", "ca2"} [] OTHER -> {}
Speaks(kind) == kind \in DOMAIN Certs                   \* the other end is a working TLS endpoint at all
Trusted(s, kind, host) == Certs[kind].ca \in s.roots /\ Certs[kind].valid /\ host \in Certs[kind].hosts

Init(e) == {[roots |-> {}, kind |-> "good", own |-> <<>>, ss |-> <<>>, ob |-> <<>>, call |-> NoCall]}
NewSession(kind) == [kind |-> kind, base |-> 0, rep |-> 0, att |-> 0, cons |-> 0, psent |-> 0, fin |-> FALSE,
                     end |-> FALSE, broken |-> FALSE, failed |-> FALSE, void |-> FALSE]

\* authorities add up; what holds no certificate is refused and changes nothing
StepLoaded(s, e) ==
  IF On("C28") /\ e.ok # (Roots(e.what) # {}) THEN {} ELSE {[s EXCEPT !.roots = @ \cup Roots(e.what)]}

(* ---- calls ------------------------------------------------------------------------------ *)
StepCall(s, e) ==
  IF s.call.op # "none" THEN {}
  ELSE LET c == [op |-> e.op, o |-> e.o, e |-> e, c |-> IF "c" \in DOMAIN e THEN e.c ELSE e.o,
                 lk |-> "none", rx |-> "none", tx |-> "none", fault |-> FALSE, maybe |-> FALSE, tcp |-> "none", fd |-> -1, nbfail |-> FALSE, lsn |-> "none", txs |-> 0, sh |-> {}, intr |-> "no"]
           t == [s EXCEPT !.call = c]
       IN CASE e.op = "new" -> {[t EXCEPT !.ob = Put(@, e.o, [k |-> IF e.sock THEN "sock" ELSE "lst", d |-> -1, bl |-> TRUE, rt |-> Zero2, wt |-> Zero2, ver |-> TRUE, fam |-> 0])]}
            [] e.op = "inet" -> {[t EXCEPT !.ob[e.o].fam = e.v]}
            [] e.op = "ver" -> {[t EXCEPT !.ob[e.o].ver = e.v]}
            [] e.op = "rto" -> {[t EXCEPT !.ob[e.o].rt = e.v]}
            [] e.op = "sto" -> {[t EXCEPT !.ob[e.o].wt = e.v]}
            [] OTHER -> {t}

(* ---- system calls ------------------------------------------------------------------------ *)
Known(s, f) == f \in DOMAIN s.ss
Open(s, f, r) == [s EXCEPT !.own = Put(@, f, FLIGHT), !.ss = IF r THEN Put(@, f, NewSession(s.kind)) ELSE @]
\* C10: the name, port and IP version that were asked for
StepLookup(s, e) ==
  LET c == s.call IN
  IF On("C10") /\ ~(/\ c.op \in {"conn", "listen"} /\ e.fam = s.ob[c.o].fam /\ e.stream /\ e.svc = "443"
                    /\ IF c.op = "conn" THEN e.hasnode /\ e.node = c.e.host ELSE ~e.hasnode /\ e.passive)
  THEN {} ELSE {[s EXCEPT !.call.lk = IF e.ok THEN "ok" ELSE "fail"]}
StepConn(s, e) == CASE e.res = "ok" -> {[s EXCEPT !.call.tcp = "ok", !.call.fd = e.fd, !.ss = Put(@, e.fd, NewSession(s.kind))]}
                    [] OTHER -> {s}
StepWait(s, e) == IF e.est THEN {[s EXCEPT !.call.tcp = "ok", !.call.fd = e.fd, !.ss = Put(@, e.fd, NewSession(s.kind))]} ELSE {s}
StepAcc(s, e) == IF e.new < 0 THEN {[s EXCEPT !.call.tcp = "fail"]}
                 ELSE {[Open(s, e.new, TRUE) EXCEPT !.call.tcp = "ok", !.call.fd = e.new]}
\* a descriptor is closed once, by its owner
StepClose(s, e) ==
  IF e.fd < 0 THEN {s}
  ELSE IF (On("C28") \/ On("C07")) /\ ~(e.ok /\ e.fd \in DOMAIN s.own /\ s.own[e.fd] \in {FLIGHT, s.call.o, s.call.c}) THEN {}
  ELSE {[s EXCEPT !.own = Del(@, e.fd), !.ss = Del(@, e.fd)]}
StepNb(s, e) == {IF e.ok THEN s ELSE [s EXCEPT !.call.nbfail = TRUE]}

(* C34: shutdown ends both directions of a connection, and a listener's accepting, and closes nothing *)
StepShut(s, e) ==
  IF e.fd < 0 THEN {s}
  ELSE IF On("C34") /\ ~(e.fd \in DOMAIN s.own /\ s.own[e.fd] \in {FLIGHT, s.call.o, s.call.c}) THEN {}
  ELSE {[s EXCEPT !.call.sh = @ \cup (CASE e.how = 0 -> {<<e.fd, "rd">>} [] e.how = 1 -> {<<e.fd, "wr">>} [] OTHER -> {<<e.fd, "rd">>, <<e.fd, "wr">>})]}
OnlyShuts(s, e) == (s.call.op = "shut" \/ s.call.intr = "now") => e.e \in {"KShut", "KName", "KSoErr", "Ret", "IntEnd"}
SameObjects(s, e) == /\ {e.objs[i].o : i \in 1..Len(e.objs)} = DOMAIN s.ob
                     /\ \A i \in 1..Len(e.objs) : LET x == e.objs[i] IN
                          /\ x.d = s.ob[x.o].d /\ x.c = (x.d >= 0)
                          /\ x.k = "sock" => x.rt = s.ob[x.o].rt /\ x.wt = s.ob[x.o].wt /\ x.bl = s.ob[x.o].bl
Ended(s, o) == LET d == s.ob[o].d IN d >= 0 => <<d, "rd">> \in s.call.sh /\ (s.ob[o].k = "sock" => <<d, "wr">> \in s.call.sh)
StepInt(s, e) == IF s.call.intr = "now" THEN {} ELSE {[s EXCEPT !.call.intr = "now"]}
StepIntEnd(s, e) ==
  IF On("C34") /\ ~(s.call.intr = "now" /\ Ended(s, s.call.o) /\ SameObjects(s, e)) THEN {}
  ELSE {[s EXCEPT !.call.intr = "done"]}

Handshaking(c) == c.op \in {"conn", "acc"}
StepTx(s, e) ==
  LET c == s.call IN
  IF ~Known(s, e.fd) THEN {}
  \* once the kernel would block or has failed, the send gives up rather than trying again
  ELSE IF On("C27") /\ c.op \in {"send", "resend"} /\ ~(c.tx \notin {"again", "other"} /\ e.fd = s.ob[c.o].d) THEN {}
  ELSE LET t == [s EXCEPT !.call.tx = e.res, !.call.txs = @ + 1] IN
       {IF e.res = "other" THEN [t EXCEPT !.call.fault = TRUE, !.ss[e.fd].failed = TRUE]
        ELSE IF e.res = "again" THEN [t EXCEPT !.call.maybe = TRUE] ELSE t}
StepRx(s, e) ==
  LET c == s.call IN
  IF ~Known(s, e.fd) THEN {}
  ELSE IF On("C27") /\ c.op = "recv" /\ ~(c.rx \notin {"again", "other", "eof"} /\ e.fd = s.ob[c.o].d) THEN {}
  ELSE LET t == [s EXCEPT !.call.rx = e.res] IN
       {CASE e.res = "other" -> [t EXCEPT !.call.fault = TRUE, !.ss[e.fd].failed = TRUE]
          [] e.res = "eof" -> [t EXCEPT !.call.fault = TRUE, !.ss[e.fd].end = TRUE]
          [] e.res = "tampered" -> [t EXCEPT !.call.fault = TRUE, !.ss[e.fd].broken = TRUE]
          [] e.res = "again" -> [t EXCEPT !.call.maybe = TRUE]
          [] OTHER -> t}

(* ---- returns ------------------------------------------------------------------------------ *)
Obj(e, o) == e.objs[CHOOSE i \in 1..Len(e.objs) : e.objs[i].o = o]
HasObj(e, o) == \E i \in 1..Len(e.objs) : e.objs[i].o = o
Fd(e, f) == e.fds[CHOOSE i \in 1..Len(e.fds) : e.fds[i].fd = f]
HasFd(e, f) == \E i \in 1..Len(e.fds) : e.fds[i].fd = f
Held(e) == {e.objs[i].d : i \in 1..Len(e.objs)} \ {-1}

\* what the objects hold after the call
Settle(s, e) ==
  LET holder(f) == IF \E i \in 1..Len(e.objs) : e.objs[i].d = f THEN e.objs[CHOOSE i \in 1..Len(e.objs) : e.objs[i].d = f].o ELSE s.own[f]
  IN [s EXCEPT !.call = NoCall,
               !.own = [f \in DOMAIN @ |-> holder(f)],
               !.ob = [o \in {e.objs[i].o : i \in 1..Len(e.objs)} |->
                         [s.ob[o] EXCEPT !.d = Obj(e, o).d, !.bl = IF Obj(e, o).k = "sock" THEN Obj(e, o).bl ELSE TRUE]]]

\* every descriptor the library opened is held by exactly the object that reports it, and none is left behind
Ownership(s, t, e) ==
  /\ DOMAIN s.own = {e.fds[i].fd : i \in 1..Len(e.fds)}
  /\ DOMAIN s.own \subseteq Held(e)
  /\ \A i \in 1..Len(e.objs) : e.objs[i].d >= 0 => e.objs[i].d \in DOMAIN s.own
  /\ \A i, j \in 1..Len(e.objs) : i # j /\ e.objs[i].d >= 0 => e.objs[i].d # e.objs[j].d
  /\ \A i \in 1..Len(e.objs) : e.objs[i].c = (e.objs[i].d >= 0)

\* C28
Established(s, e) ==
  LET c == s.call
      me == Obj(e, c.o) IN
  /\ c.op = "new" => e.threw = (~c.e.sock /\ (c.e.cert \notin DOMAIN Certs \/ c.e.key # "key"))
  /\ c.op \in {"disc", "rel", "lclose"} => ~me.c
  /\ c.op = "conn" =>
       LET due == c.tcp = "ok" /\ ~c.fault /\ Speaks(s.kind) /\ (s.ob[c.o].ver => Trusted(s, s.kind, c.e.host)) IN
       /\ (e.st = Success) => due
       /\ due /\ ~c.maybe => e.st = Success
       /\ me.c = (e.st = Success)
       /\ e.st = Success => me.d = c.fd /\ Fd(e, me.d).hs /\ me.addr = c.e.host \o ":443"
  /\ c.op = "acc" =>
       LET due == c.tcp = "ok" /\ ~c.fault /\ Speaks(s.kind)
           cl == Obj(e, c.c) IN
       /\ (e.st = Success) => due
       /\ due /\ ~c.maybe => e.st = Success
       /\ e.st = Success => cl.d = c.fd /\ cl.c /\ Fd(e, cl.d).hs
       /\ e.st # Success => cl.d \in {s.ob[c.c].d, -1}
       /\ me.d = s.ob[c.o].d /\ me.c = (me.d >= 0)          \* the listener carries on
  /\ c.op = "listen" => me.c = (e.st = Success) /\ (c.lsn = "ok" => e.st = Success)
\* C10: what went wrong
Reason(s, e) ==
  LET c == s.call IN
  /\ c.op = "listen" => /\ e.st = LookupFailure <=> c.lk = "fail"
                        /\ e.st = ListenFailed => c.lsn = "fail"
                        /\ e.st = BindFailed => c.lsn # "ok"
                        /\ e.st \in {Success, LookupFailure, ListenFailed, BindFailed}
  /\ c.op = "conn" => /\ e.st = LookupFailure <=> c.lk = "fail"
                      /\ e.st = NoRoute => c.lk = "ok" /\ c.tcp # "ok"

\* C27
Again(nb) == IF nb THEN WouldBlock ELSE Timeout
NbBefore(s, o) == ~s.ob[o].bl
Sane(x) == ~x.broken /\ ~x.failed
Up(s) == s.ob[s.call.o].d >= 0 /\ Known(s, s.ob[s.call.o].d)

SendOk(s, e) ==
  LET c == s.call IN
  IF ~Up(s) THEN e.st \notin Progress /\ e.cnt = c.e.sent0 /\ c.txs = 0
  ELSE LET x == s.ss[s.ob[c.o].d] IN
       /\ c.e.sent0 <= e.cnt /\ e.cnt <= c.e.n
       /\ (e.st = Success) = (e.cnt = c.e.n)
       /\ c.tx # "nowait"                 \* a call that should wait has to
       /\ c.tx = "again" => e.st = Again(NbBefore(s, c.o))
       /\ c.tx # "again" => e.st \notin {WouldBlock, Timeout}
       /\ c.tx = "other" => e.st \notin Progress
       /\ Sane(x) /\ ~x.end => e.st \in Progress
RecvOk(s, e) ==
  LET c == s.call IN
  /\ e.tailok
  /\ IF ~Up(s) THEN e.st \notin Progress /\ e.cnt = 0
     ELSE LET x == s.ss[s.ob[c.o].d] IN
          /\ (e.st = Success) = (e.cnt > 0)
          /\ e.st = Success => e.cnt <= c.e.n /\ e.from = x.cons /\ x.cons + e.cnt <= x.psent
          /\ CASE c.rx = "nowait" -> FALSE       \* a call that should wait has to
               [] c.rx = "again" -> e.st = Again(NbBefore(s, c.o))
               [] c.rx = "eof" -> e.st = Disconnected
               [] c.rx = "other" -> e.st \notin Progress
               [] ~Sane(x) \/ x.end -> e.st \notin {WouldBlock, Timeout}
               [] x.cons < x.psent -> e.st = Success
               [] OTHER -> x.fin /\ e.st = Disconnected
\* where the two ends of every stream stand
Moved(s, t, e) ==
  LET c == s.call IN
  IF c.op \in {"send", "resend"} /\ Up(s)
  THEN LET f == s.ob[c.o].d
           x == t.ss[f]
           b == IF c.e.fresh THEN x.rep ELSE x.base IN
       \* a new message although the last one never went out whole: what arrives from then on is up to the caller
       [t EXCEPT !.ss[f].void = @ \/ (c.e.fresh /\ x.rep < x.att), !.ss[f].base = b, !.ss[f].rep = b + e.cnt, !.ss[f].att = IF b + c.e.n > @ THEN b + c.e.n ELSE @]
  ELSE IF c.op = "recv" /\ Up(s) THEN [t EXCEPT !.ss[s.ob[c.o].d].cons = @ + e.cnt, !.ss[s.ob[c.o].d].end = @ \/ e.st = Disconnected]
  ELSE t
Streams(t, e) ==
  /\ ~e.clear
  /\ \A f \in DOMAIN t.ss : HasFd(e, f) =>
       LET p == Fd(e, f)
           x == t.ss[f] IN
       /\ ~x.void => p.ok /\ p.got <= x.att
       /\ Sane(x) /\ ~x.void => x.rep <= p.got
Modes(s, t, e) ==
  LET c == s.call IN
  /\ \A i \in 1..Len(e.objs) :
       LET o == e.objs[i] IN
       o.k = "sock" =>
         /\ o.rt = t.ob[o.o].rt /\ o.wt = t.ob[o.o].wt
         /\ o.c /\ HasFd(e, o.d) => LET f == Fd(e, o.d) IN o.bl = ~f.nb /\ f.rt = o.rt /\ f.wt = o.wt /\ f.nd
  /\ c.op \in {"conn", "acc"} /\ e.st = Success => Obj(e, c.c).bl
  /\ c.op = "blk" =>
       LET me == Obj(e, c.o) IN
       /\ e.st = Success /\ me.c => me.bl = c.e.v
       /\ me.c /\ ~c.nbfail => e.st = Success
       /\ e.st # Success => me.bl = s.ob[c.o].bl
       /\ ~me.c /\ s.ob[c.o].bl # c.e.v => e.st # Success

Shut(s, e) ==
  LET c == s.call IN
  /\ c.op = "shut" => SameObjects(s, e) /\ Ended(s, c.o)
  /\ c.intr # "now"
  /\ c.intr = "done" /\ c.op = "recv" => e.st = Disconnected /\ e.cnt = 0
  /\ c.intr = "done" /\ c.op = "acc" /\ s.ob[c.o].d >= 0 => e.st # Success /\ Obj(e, c.o).d = s.ob[c.o].d

StepRet(s, e) ==
  IF s.call.op # e.op THEN {}
  ELSE LET t == Moved(s, Settle(s, e), e)
           c == s.call IN
       IF /\ On("C34") => Shut(s, e)
          /\ (On("C28") \/ On("C07")) => Ownership(s, t, e)
          /\ On("C28") \/ On("C10") => Established(s, e)
          /\ On("C10") => Reason(s, e)
          /\ On("C27") => /\ Modes(s, t, e) /\ Streams(t, e)
                          /\ c.op \in {"send", "resend"} => SendOk(s, e)
                          /\ c.op = "recv" => RecvOk(s, e)
       THEN {t} ELSE {}

Step(s, e) ==
  CASE e.e = "Loaded" -> StepLoaded(s, e)
    [] e.e = "Peer" -> {[s EXCEPT !.kind = e.kind]}
    [] e.e = "PSend" -> {IF Known(s, e.fd) THEN [s EXCEPT !.ss[e.fd].psent = @ + e.n] ELSE s}
    [] e.e = "PEnd" -> {IF Known(s, e.fd) /\ e.how # "eof" THEN [s EXCEPT !.ss[e.fd].fin = TRUE] ELSE s}
    [] e.e = "Call" -> StepCall(s, e)
    [] e.e = "Ret" -> StepRet(s, e)
    [] s.call.op = "none" -> {}
    [] On("C34") /\ ~OnlyShuts(s, e) -> {}
    [] e.e = "Int" -> StepInt(s, e)
    [] e.e = "IntEnd" -> StepIntEnd(s, e)
    [] e.e = "KShut" -> StepShut(s, e)
    [] e.e = "KSock" -> {IF e.fd >= 0 THEN Open(s, e.fd, FALSE) ELSE s}
    [] e.e = "KConn" -> StepConn(s, e)
    [] e.e = "KWait" -> StepWait(s, e)
    [] e.e = "KNb" -> StepNb(s, e)
    [] e.e = "KAcc" -> StepAcc(s, e)
    [] e.e = "KListen" -> {[s EXCEPT !.call.lsn = IF e.ok THEN "ok" ELSE "fail"]}
    [] e.e = "KClose" -> StepClose(s, e)
    [] e.e = "KTx" -> StepTx(s, e)
    [] e.e = "KRx" -> StepRx(s, e)
    [] e.e = "KSoErr" -> {IF e.ok /\ e.val = 0 THEN s ELSE [s EXCEPT !.call.tcp = "fail"]}
    [] e.e = "KLookup" -> StepLookup(s, e)
    [] e.e \in {"KFree", "KOpt", "KBind", "KName"} -> {s}
    [] OTHER -> {}
=============================================================================
