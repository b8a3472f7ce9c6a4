--------------------------------- MODULE Tcp --------------------------------
(* TCP sockets and listeners of the library on top of a kernel.                              *)
(*                                                                                           *)
(* The state is the kernel's descriptor table (who owns each descriptor, what it is, which   *)
(* options are in force), the resolved address lists alive, the library objects, and the     *)
(* library call in progress. Events K* are system calls (by effect, not by name: select and  *)
(* poll are the same KWait), Call and Ret delimit a library call, Ext* is somebody else in   *)
(* the same process opening and closing descriptors.                                         *)
EXTENDS Bytes, IOUtils
PROP == IF "PROP" \in DOMAIN IOEnv THEN IOEnv.PROP ELSE "ALL"
On(p) == PROP \in {p, "ALL"}

Success == 1   ListenFailed == 2   BindFailed == 3   Disconnected == 4   WouldBlock == 6
LookupFailure == 15   SendError == 16   ReceiveError == 17   AcceptError == 18   NoRoute == 20   Timeout == 21

EXTERNAL == -1    \* owner: not the library
FLIGHT == 0       \* owner: opened during the call in progress
Zero2 == <<0, 0>>
NoCall == [op |-> "none", o |-> 0]

NewFd(own, nb, ph, cand) == [own |-> own, nb |-> nb, ph |-> ph, cand |-> cand, nd |-> FALSE, rt |-> Zero2, wt |-> Zero2, rd |-> FALSE, wr |-> FALSE]
Up(s, f) == f \in DOMAIN s.fd /\ s.fd[f].ph \in {"est", "listen", "ext"}
Put(fn, k, v) == IF k \in DOMAIN fn THEN [fn EXCEPT ![k] = v] ELSE fn @@ (k :> v)
Del(fn, k) == [x \in DOMAIN fn \ {k} |-> fn[x]]
SetFd(s, f, r) == [s EXCEPT !.fd = Put(@, f, r)]
SetCall(s, c) == [s EXCEPT !.call = c]

Init(e) == {[fd |-> <<>>, lists |-> {}, ob |-> <<>>, call |-> NoCall]}

\* objects a call is allowed to touch
Owners(c) == {FLIGHT, c.o} \cup (IF c.op = "acc" THEN {c.c} ELSE {})

(* ---- library calls ------------------------------------------------------------------- *)
StepCall(s, e) ==
  IF s.call.op # "none" THEN {}
  ELSE LET c == [op |-> e.op, o |-> e.o, e |-> e, c |-> IF "c" \in DOMAIN e THEN e.c ELSE 0,
                 fams |-> <<>>, lk |-> "none", cur |-> 0, spent |-> 0, bad |-> {}, nbfail |-> FALSE, lfail |-> FALSE,
                 acc |-> [st |-> "none", fd |-> -1, peer |-> ""], named |-> TRUE,
                 cnt |-> IF "sent0" \in DOMAIN e THEN e.sent0 ELSE 0, io |-> "go", got |-> <<>>, sends |-> 0, intr |-> "no"]
           t == SetCall(s, c)
       IN CASE e.op = "new" -> {[t EXCEPT !.ob = Put(@, e.o, [k |-> IF e.sock THEN "sock" ELSE "lst", d |-> -1, rt |-> Zero2, wt |-> Zero2,
                                                              fam |-> 0, bl |-> TRUE])]}
            [] e.op = "rto" -> {[t EXCEPT !.ob[e.o].rt = e.v]}
            [] e.op = "sto" -> {[t EXCEPT !.ob[e.o].wt = e.v]}
            [] e.op = "inet" -> {[t EXCEPT !.ob[e.o].fam = e.v]}
            [] e.op \in {"adopt", "lset"} -> {IF e.fd \in DOMAIN t.fd THEN [t EXCEPT !.fd[e.fd].own = e.o] ELSE t}
            [] e.op = "lmove" -> {[t EXCEPT !.ob = Put(@, e.c, s.ob[e.o])]}
            [] OTHER -> {t}

(* ---- system calls -------------------------------------------------------------------- *)
C(s) == s.call
Bad(s, cand) == [s EXCEPT !.call.bad = @ \cup {cand}]
Cand(s, f) == IF f \in DOMAIN s.fd THEN s.fd[f].cand ELSE 0

StepLookup(s, e) ==
  LET c == C(s)
      wantfam == s.ob[c.o].fam
      ok == /\ c.op \in {"conn", "listen"}
            /\ e.fam = wantfam /\ e.stream
            /\ e.svc = c.e.port
            /\ (IF c.op = "conn" THEN e.hasnode /\ e.node = c.e.addr ELSE ~e.hasnode /\ e.passive)
  IN IF On("C10") /\ ~ok THEN {}
     ELSE {[s EXCEPT !.call.fams = e.fams, !.call.lk = IF e.ok THEN "ok" ELSE "fail",
                     !.lists = IF e.ok THEN @ \cup {e.list} ELSE @]}
StepFree(s, e) == IF On("C07") /\ e.list \notin s.lists THEN {} ELSE {[s EXCEPT !.lists = @ \ {e.list}]}

StepSock(s, e) ==
  LET n == C(s).cur + 1
      t == [s EXCEPT !.call.cur = n, !.call.spent = 0]
  IN IF On("C10") /\ ~(n <= Len(C(s).fams) /\ e.fam = C(s).fams[n]) THEN {}      \* the next address, with its own family
     ELSE IF e.fd < 0 THEN {Bad(t, n)}
     ELSE {SetFd(t, e.fd, NewFd(FLIGHT, e.nb, "new", n))}

StepConn(s, e) ==
  IF e.fd \notin DOMAIN s.fd THEN (IF On("C10") THEN {} ELSE {s})
  ELSE IF On("C10") /\ e.cand # Cand(s, e.fd) THEN {}
  ELSE CASE e.res = "ok" -> {SetFd(s, e.fd, [s.fd[e.fd] EXCEPT !.ph = "est"])}
         [] e.res = "prog" -> {SetFd(s, e.fd, [s.fd[e.fd] EXCEPT !.ph = "prog"])}
         [] OTHER -> {Bad(s, e.cand)}

\* An address is given up on after the timeout, the default being unspecified. A signal during the wait does not end it:
\* the rest of the timeout is waited for, and only when (nearly) nothing is left of it the address may be given up on.
StepWait(s, e) ==
  IF e.fd \notin DOMAIN s.fd THEN (IF On("C10") THEN {} ELSE {s})
  ELSE LET secs == C(s).e.secs
           spent == C(s).spent
           left == IF spent > secs * 1000 THEN 0 ELSE secs * 1000 - spent
           okms == IF secs = 0 THEN e.ms > (IF spent = 0 THEN 0 ELSE -1)
                   ELSE IF spent = 0 THEN e.ms <= left /\ e.ms > left - 500
                   ELSE e.ms <= left + 1 /\ e.ms >= 0 /\ e.ms > left - 30000       \* real time passes, too
           over == IF secs = 0 THEN spent + e.adv > 5000 ELSE e.adv + 500 >= left
           t == [s EXCEPT !.call.spent = @ + e.adv]
       IN IF On("C10") /\ C(s).op = "conn" /\ ~okms THEN {}
          ELSE IF e.res = "intr" THEN (IF over THEN {t, Bad(t, Cand(s, e.fd))} ELSE {t})
          ELSE IF e.res = "ready" /\ e.est THEN {SetFd(s, e.fd, [s.fd[e.fd] EXCEPT !.ph = "est"])}
          ELSE {Bad(s, Cand(s, e.fd))}
StepSoErr(s, e) == IF e.ok THEN {s} ELSE {Bad(s, Cand(s, e.fd))}

StepNb(s, e) ==
  IF e.fd \notin DOMAIN s.fd THEN {s}
  ELSE IF e.ok THEN {SetFd(s, e.fd, [s.fd[e.fd] EXCEPT !.nb = e.nb])}
  ELSE {[Bad(s, Cand(s, e.fd)) EXCEPT !.call.nbfail = TRUE]}

StepOpt(s, e) ==
  IF e.fd \notin DOMAIN s.fd THEN {s}
  ELSE IF ~e.ok THEN {Bad(s, Cand(s, e.fd))}
  ELSE CASE e.opt = "rcv" -> {SetFd(s, e.fd, [s.fd[e.fd] EXCEPT !.rt = e.ms])}
         [] e.opt = "snd" -> {SetFd(s, e.fd, [s.fd[e.fd] EXCEPT !.wt = e.ms])}
         [] e.opt = "nodelay" -> {SetFd(s, e.fd, [s.fd[e.fd] EXCEPT !.nd = (e.ms = <<0, 1>>)])}
         [] OTHER -> {s}

StepBind(s, e) ==
  IF e.fd \notin DOMAIN s.fd THEN (IF On("C10") THEN {} ELSE {s})
  ELSE IF On("C10") /\ e.cand # Cand(s, e.fd) THEN {}
  ELSE IF e.ok THEN {SetFd(s, e.fd, [s.fd[e.fd] EXCEPT !.ph = "bound"])} ELSE {Bad(s, e.cand)}
StepListen(s, e) ==
  IF e.fd \notin DOMAIN s.fd THEN (IF On("C10") THEN {} ELSE {s})
  ELSE IF e.ok THEN IF s.fd[e.fd].ph = "bound" THEN {SetFd(s, e.fd, [s.fd[e.fd] EXCEPT !.ph = "listen"])} ELSE {s}
  ELSE {[Bad(s, Cand(s, e.fd)) EXCEPT !.call.lfail = TRUE]}

StepAcc(s, e) ==
  IF e.new < 0 THEN {[s EXCEPT !.call.acc.st = "fail"]}
  ELSE {SetFd([s EXCEPT !.call.acc = [st |-> "ok", fd |-> e.new, peer |-> e.peer]], e.new, NewFd(FLIGHT, e.nb, "est", 0))}

\* a descriptor is closed only by its owner, and only while it is open
StepClose(s, e) ==
  IF e.fd < 0 THEN {s}
  ELSE IF On("C07") /\ ~(e.fd \in DOMAIN s.fd /\ s.fd[e.fd].own \in Owners(C(s))) THEN {}
  ELSE {[s EXCEPT !.fd = Del(@, e.fd)]}

(* Shutdown makes both directions of a connection end, and a listener stop accepting; the     *)
(* object keeps its descriptor. Another thread may do it while a call is blocked.             *)
StepShut(s, e) ==
  IF e.fd < 0 THEN {s}
  ELSE IF On("C34") /\ ~(e.fd \in DOMAIN s.fd /\ s.fd[e.fd].own \in Owners(C(s))) THEN {}
  ELSE IF e.fd \notin DOMAIN s.fd THEN {s}
  ELSE {SetFd(s, e.fd, [s.fd[e.fd] EXCEPT !.rd = @ \/ e.how \in {0, 2}, !.wr = @ \/ e.how \in {1, 2}])}
OnlyShuts(s, e) == (s.call.op = "shut" \/ s.call.intr = "now") => e.e \in {"KShut", "KName", "KSoErr", "Ret", "IntEnd"}

StepSend(s, e) ==
  LET c == C(s)
      t == [s EXCEPT !.call.sends = @ + 1]
      total == Len(c.e.b)
  IN IF c.op = "send" THEN (IF On("C08") /\ ~Up(s, e.fd) THEN {} ELSE {t})
     ELSE IF c.op # "sraw" THEN (IF On("C06") THEN {} ELSE {s})
     ELSE IF On("C06") /\ ~(/\ c.io \in {"go", "intr", "nowait"}
                            /\ e.fd = s.ob[c.o].d
                            /\ Len(e.b) >= 1 /\ Len(e.b) <= total - c.cnt
                            /\ e.b = Slice(c.e.b, c.cnt, Len(e.b))) THEN {}
     ELSE IF e.res >= 0 THEN {[t EXCEPT !.call.cnt = @ + e.res, !.call.io = "go"]}
     ELSE {[t EXCEPT !.call.io = e.err]}

StepRecv(s, e) ==
  LET c == C(s) IN
  IF c.op # "rraw" THEN (IF On("C06") THEN {} ELSE {s})
  ELSE IF On("C06") /\ ~(c.io \in {"go", "intr", "nowait"} /\ e.max >= 1 /\ e.max <= c.e.n /\ e.fd = s.ob[c.o].d) THEN {}
  ELSE IF e.res > 0 THEN {[s EXCEPT !.call.io = "done", !.call.got = e.b]}
  ELSE {[s EXCEPT !.call.io = IF e.res = 0 THEN "eof" ELSE e.err]}

(* ---- returns --------------------------------------------------------------------------- *)
\* ownership after the call, as the objects present it: an object owns the descriptor it reports
Owned(s, e) ==
  LET D == {e.objs[i].d : i \in 1..Len(e.objs)}
      by(f) == CHOOSE i \in 1..Len(e.objs) : e.objs[i].d = f
      adopt == s.call.op \in {"adopt", "readopt", "lset"}
      release == s.call.op \in {"release", "lrel", "lset"}   \* lset over a live descriptor: the caller may keep the old one
      gone == IF s.call.op = "del" THEN {s.call.o} ELSE {}
      own(f) == LET x == s.fd[f] IN
                IF x.own = EXTERNAL THEN EXTERNAL
                ELSE IF x.own \in {FLIGHT, s.call.o} \cup (IF s.call.op \in {"acc", "lmove"} THEN {s.call.c} ELSE {}) /\ f \in D
                     THEN e.objs[by(f)].o
                ELSE IF release /\ x.own = s.call.o THEN EXTERNAL
                ELSE x.own
      adj == IF s.call.op = "lmove"    \* what the source owned now belongs to the new listener
             THEN [f \in DOMAIN s.fd |-> IF s.fd[f].own = s.call.o THEN [s.fd[f] EXCEPT !.own = s.call.c] ELSE s.fd[f]]
             ELSE [f \in DOMAIN s.fd |-> [s.fd[f] EXCEPT !.own = own(f)]]
      ob2 == [o \in {e.objs[i].o : i \in 1..Len(e.objs)} |->
                LET i == CHOOSE i \in 1..Len(e.objs) : e.objs[i].o = o IN
                [s.ob[o] EXCEPT !.d = e.objs[i].d, !.bl = IF "bl" \in DOMAIN e.objs[i] THEN e.objs[i].bl ELSE TRUE]]
  IN [s EXCEPT !.fd = adj, !.ob = ob2, !.call = NoCall]

Snap(e, o) == e.objs[CHOOSE i \in 1..Len(e.objs) : e.objs[i].o = o]
Has(e, o) == \E i \in 1..Len(e.objs) : e.objs[i].o = o

\* C07: nothing left in flight, nothing owned that its owner no longer holds, no address list alive
NoLeak(s, t, e) ==
  /\ \A f \in DOMAIN t.fd : /\ t.fd[f].own # FLIGHT
                            /\ t.fd[f].own > 0 => Has(e, t.fd[f].own) /\ Snap(e, t.fd[f].own).d = f
  /\ t.lists = {}
  /\ \A i \in 1..Len(e.objs) : e.objs[i].d >= 0 => e.objs[i].d \in DOMAIN t.fd /\ t.fd[e.objs[i].d].own = e.objs[i].o
  /\ s.call.op \in {"disc", "lclose"} => Snap(e, s.call.o).d = -1
  /\ s.call.op \in {"conn", "listen"} /\ e.st # Success => Snap(e, s.call.o).d = -1

\* C08: what the objects say about themselves is true
StateTruth(s, t, e) ==
  /\ \A i \in 1..Len(e.objs) :
       LET x == e.objs[i]
           up == Up(t, x.d) /\ t.fd[x.d].own = x.o IN
       /\ x.c = up
       /\ up /\ x.k = "sock" => x.bl = ~t.fd[x.d].nb
  /\ LET c == s.call IN
     /\ c.op \in {"conn", "listen"} => Snap(e, c.o).c = (e.st = Success)
     /\ c.op = "conn" /\ e.st = Success => Snap(e, c.o).bl
     /\ c.op = "acc" /\ e.st = Success => Snap(e, c.c).c /\ Snap(e, c.c).bl
     /\ c.op \in {"disc", "lclose", "new", "release", "lrel"} => ~Snap(e, c.o).c
     /\ c.op = "blk" => LET x == Snap(e, c.o) IN
          /\ (e.st = Success /\ x.c) => x.bl = c.e.v
          /\ x.c /\ s.ob[c.o].bl # c.e.v /\ ~c.nbfail /\ e.st # Success => FALSE
          /\ c.nbfail => e.st # Success
          /\ e.st # Success => x.bl = s.ob[c.o].bl
          /\ ~x.c /\ s.ob[c.o].bl # c.e.v => e.st # Success
     /\ c.op = "send" => /\ ~Up(s, s.ob[c.o].d) => e.st = Disconnected /\ c.sends = 0

\* C09: the timeouts last set are reported and in force on every live connection; Nagle is off
Options(s, t, e) ==
  \A i \in 1..Len(e.objs) :
    LET x == e.objs[i] IN
    x.k = "sock" =>
      /\ x.rt = t.ob[x.o].rt /\ x.wt = t.ob[x.o].wt
      /\ Up(t, x.d) => /\ t.fd[x.d].rt = x.rt /\ t.fd[x.d].wt = x.wt /\ t.fd[x.d].nd

\* C10: success is real, every address was given its chance, the peer's address is reported
Attempts(s, t, e) ==
  LET c == s.call
      n == Len(c.fams)
      d == IF Has(e, c.o) THEN Snap(e, c.o).d ELSE -1
  IN /\ c.op = "conn" =>
          IF e.st = Success
          THEN /\ c.lk = "ok" /\ d \in DOMAIN t.fd /\ t.fd[d].ph = "est" /\ t.fd[d].cand \in 1..n
               /\ \A k \in 1..(t.fd[d].cand - 1) : k \in c.bad
               /\ Snap(e, c.o).addr = c.e.addr \o ":" \o c.e.port
          ELSE IF c.lk # "ok" THEN e.st = LookupFailure /\ c.lk = "fail" /\ c.cur = 0
          ELSE c.nbfail \/ (e.st = NoRoute /\ \A k \in 1..n : k \in c.bad)
     /\ c.op = "listen" =>
          IF e.st = Success
          THEN /\ c.lk = "ok" /\ d \in DOMAIN t.fd /\ t.fd[d].ph = "listen"
               /\ \A k \in 1..(t.fd[d].cand - 1) : k \in c.bad
          ELSE IF c.lk # "ok" THEN e.st = LookupFailure /\ c.lk = "fail"
          ELSE \/ e.st = ListenFailed /\ c.lfail
               \/ e.st = BindFailed /\ \A k \in 1..n : k \in c.bad
     /\ c.op = "acc" =>
          IF e.st = Success
          THEN /\ c.acc.st = "ok" /\ Snap(e, c.c).d = c.acc.fd
               /\ Snap(e, c.c).addr = IF c.named THEN c.acc.peer ELSE "unknown"
          ELSE c.acc.st = "fail" /\ e.st = AcceptError

\* C06: the result of the raw call is what the kernel said
RawResult(s, e) ==
  LET c == s.call
      nb == s.ob[c.o].d \in DOMAIN s.fd /\ s.fd[s.ob[c.o].d].nb
      again == IF nb THEN WouldBlock ELSE Timeout
  IN /\ c.op = "sraw" =>
          /\ e.cnt = c.cnt
          /\ e.st = CASE c.io = "again" -> again [] c.io = "other" -> SendError [] c.io = "go" -> Success [] OTHER -> -1
          /\ (c.io = "go" => c.cnt = Len(c.e.b))
     /\ c.op = "rraw" =>
          /\ e.tailok /\ e.b = c.got /\ e.cnt = Len(c.got)
          /\ e.st = CASE c.io = "again" -> again [] c.io = "other" -> ReceiveError [] c.io = "eof" -> Disconnected
                      [] c.io = "done" -> Success [] OTHER -> -1

\* C34
SameObjects(s, e) == /\ {e.objs[i].o : i \in 1..Len(e.objs)} = DOMAIN s.ob
                     /\ \A o \in DOMAIN s.ob : LET x == Snap(e, o) IN
                          /\ x.d = s.ob[o].d /\ x.c = (x.d >= 0)
                          /\ x.k = "sock" => x.rt = s.ob[o].rt /\ x.wt = s.ob[o].wt /\ x.bl = s.ob[o].bl
Ended(s, o) == LET d == s.ob[o].d IN
               d \in DOMAIN s.fd => s.fd[d].rd /\ (s.ob[o].k = "sock" => s.fd[d].wr)
Shut(s, e) ==
  LET c == s.call
      d == s.ob[c.o].d
      x == IF d \in DOMAIN s.fd THEN s.fd[d] ELSE NewFd(0, FALSE, "none", 0) IN
  /\ c.op = "shut" => SameObjects(s, e) /\ Ended(s, c.o)
  /\ c.op = "rraw" /\ x.rd => e.st \notin {WouldBlock, Timeout} /\ (c.got = <<>> => e.st = Disconnected)
  /\ c.op = "sraw" /\ x.wr /\ Len(c.e.b) > c.e.sent0 => e.st \notin {Success, WouldBlock, Timeout}
  /\ c.op = "acc" /\ x.rd => e.st = AcceptError /\ Snap(e, c.o).d = d /\ Snap(e, c.o).c
  /\ c.intr # "now"
StepInt(s, e) == IF s.call.intr = "now" THEN {} ELSE {[s EXCEPT !.call.intr = "now"]}
StepIntEnd(s, e) ==
  IF On("C34") /\ ~(s.call.intr = "now" /\ Ended(s, s.call.o) /\ \A o \in DOMAIN s.ob : Snap(e, o).d = s.ob[o].d) THEN {}
  ELSE {[s EXCEPT !.call.intr = "done"]}

StepRet(s, e) ==
  IF s.call.op # e.op THEN {}
  ELSE LET t == Owned(s, e) IN
       IF /\ On("C07") => NoLeak(s, t, e)
          /\ On("C08") => StateTruth(s, t, e)
          /\ On("C09") => Options(s, t, e)
          /\ On("C10") => Attempts(s, t, e)
          /\ On("C06") => RawResult(s, e)
          /\ On("C34") => Shut(s, e)
       THEN {t} ELSE {}

Step(s, e) ==
  CASE e.e = "Call" -> StepCall(s, e)
    [] e.e = "Ret" -> StepRet(s, e)
    [] e.e = "Ext" -> {SetFd(s, e.fd, NewFd(EXTERNAL, e.nb, "ext", 0))}
    [] e.e = "ExtClose" -> {[s EXCEPT !.fd = Del(@, e.fd)]}
    [] s.call.op = "none" -> {}                          \* no system call outside a library call
    [] On("C34") /\ ~OnlyShuts(s, e) -> {}
    [] e.e = "Int" -> StepInt(s, e)
    [] e.e = "IntEnd" -> StepIntEnd(s, e)
    [] e.e = "KLookup" -> StepLookup(s, e)
    [] e.e = "KFree" -> StepFree(s, e)
    [] e.e = "KSock" -> StepSock(s, e)
    [] e.e = "KConn" -> StepConn(s, e)
    [] e.e = "KWait" -> StepWait(s, e)
    [] e.e = "KSoErr" -> StepSoErr(s, e)
    [] e.e = "KNb" -> StepNb(s, e)
    [] e.e = "KOpt" -> StepOpt(s, e)
    [] e.e = "KBind" -> StepBind(s, e)
    [] e.e = "KListen" -> StepListen(s, e)
    [] e.e = "KAcc" -> StepAcc(s, e)
    [] e.e = "KName" -> {[s EXCEPT !.call.named = e.ok]}
    [] e.e = "KClose" -> StepClose(s, e)
    [] e.e = "KShut" -> StepShut(s, e)
    [] e.e = "KSend" -> StepSend(s, e)
    [] e.e = "KRecv" -> StepRecv(s, e)
    [] OTHER -> {}
=============================================================================
