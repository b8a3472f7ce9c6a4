------------------------------ MODULE WebSocket ------------------------------
(* A WebSocket endpoint over a stream transport: opening handshake (RFC 6455 section 4) in both *)
(* roles, frames behind it, and the end of the connection.                                      *)
(*                                                                                              *)
(* The state is the transport (open or not, what was read from it and not yet consumed by a     *)
(* message), the endpoint's role and the library call in progress. Call/Ret delimit a library   *)
(* call; TConn, TSend, TRecv and TClose are what it does to the transport meanwhile.            *)
EXTENDS Digest, IOUtils
H == INSTANCE Http
FR == INSTANCE Framing
PROP == IF "PROP" \in DOMAIN IOEnv THEN IOEnv.PROP ELSE "ALL"
On(p) == PROP \in {p, "ALL"}

Success == 1   WouldBlock == 6
HLIM == 51200   BLIM == 10485760

nKey == <<115,101,99,45,119,101,98,115,111,99,107,101,116,45,107,101,121>>
nAcc == <<115,101,99,45,119,101,98,115,111,99,107,101,116,45,97,99,99,101,112,116>>
nVer == <<115,101,99,45,119,101,98,115,111,99,107,101,116,45,118,101,114,115,105,111,110>>
nProto == <<115,101,99,45,119,101,98,115,111,99,107,101,116,45,112,114,111,116,111,99,111,108>>
nUpg == <<117,112,103,114,97,100,101>>
wWs == <<119,101,98,115,111,99,107,101,116>>

NoCall == [op |-> "none"]
\* open: transport open; est: handshake complete; toks: tokens read and not consumed; keys: handshake keys used before
\* rdead/wdead: a direction in which a message was broken off
Init(e) == {[open |-> FALSE, est |-> FALSE, role |-> "none", toks |-> <<>>, keys |-> {}, rdead |-> FALSE, wdead |-> FALSE, call |-> NoCall]}

(* ---- what a call does to the transport -------------------------------------------------- *)
\* cs: bytes sent on the connection during the call, sf: a send failed, conns/closes: how often
StepCall(s, e) ==
  IF s.call.op # "none" THEN {}
  ELSE {[s EXCEPT !.call = [op |-> e.op, e |-> e, cs |-> <<>>, sf |-> FALSE, sw |-> FALSE, conns |-> 0, closes |-> 0, was |-> s.est],
                  !.est = IF e.op \in {"connect", "accept"} THEN FALSE ELSE @]}
StepConn(s, e) ==
  IF s.open \/ s.call.op \notin {"connect", "accept"} \/ s.call.conns > 0 THEN {}
  ELSE {[s EXCEPT !.open = TRUE, !.role = IF s.call.op = "connect" THEN "client" ELSE "server", !.toks = <<>>, !.rdead = FALSE, !.wdead = FALSE,
                  !.call.conns = 1, !.call.closes = 0, !.call.cs = <<>>, !.call.sf = FALSE]}
StepSend(s, e) ==
  IF e.k = "-" THEN {[s EXCEPT !.call.sf = TRUE]}              \* no descriptor: fails without effect
  ELSE IF ~s.open \/ e.k = "!" THEN {}
  ELSE IF e.k = "D" THEN IF s.call.sf /\ s.call.op # "send" THEN {} ELSE {[s EXCEPT !.call.cs = @ \o e.b, !.call.sw = FALSE]}
  ELSE IF e.k = "W" THEN {[s EXCEPT !.call.sw = TRUE]}
  ELSE {[s EXCEPT !.call.sf = TRUE]}
Tok(k) == CASE k = "W" -> FR!WB [] k = "T" -> FR!TO [] k = "X" -> FR!EOS [] OTHER -> FR!ERR
StepRecv(s, e) ==
  IF e.k = "-" THEN {[s EXCEPT !.toks = Append(@, FR!ERR)]}
  ELSE IF ~s.open \/ e.k = "!" THEN {}
  \* the request goes out before its answer is waited for
  ELSE IF s.call.op = "connect" /\ ~H!HdrEnd(s.call.cs).found THEN {}
  ELSE {[s EXCEPT !.toks = IF e.k = "D" THEN @ \o e.b ELSE Append(@, Tok(e.k))]}
StepClose(s, e) ==
  IF ~e.ok \/ ~s.open THEN {} ELSE {[s EXCEPT !.open = FALSE, !.est = FALSE, !.call.closes = @ + 1]}

(* ---- the handshake ----------------------------------------------------------------------- *)
Trim(v) == H!TrimR(H!TrimL(v, {32, 9}), {32, 9})
Vals(hs, n) == {Trim(hs[k].val) : k \in H!Named(hs, n)}
One(hs, n) == Cardinality(H!Named(hs, n)) = 1
Val(hs, n) == LET S == H!Named(hs, n) IN IF S = {} THEN <<>> ELSE Trim(hs[H!First(S)].val)
Tokens(v) == LET w == H!Split(v, 44) IN {H!Lower(Trim(w[i])) : i \in 1..Len(w)}
Upgrades(hs) == One(hs, nUpg) /\ H!Lower(Val(hs, nUpg)) = wWs
ConnUpgrade(hs) == One(hs, H!nConn) /\ nUpg \in Tokens(Val(hs, H!nConn))
NoBody(hs) == H!ContentLength(hs) \in {-1, 0} /\ ~H!HasTE(hs)
RECURSIVE JoinC(_)
JoinC(ps) == IF ps = <<>> THEN <<>> ELSE IF Len(ps) = 1 THEN ps[1] ELSE ps[1] \o <<44>> \o JoinC(Tail(ps))
NoBlanks(v) == SelectSeq(v, LAMBDA c : c \notin {32, 9})

\* the one request a client sends; key: its key
Request(cs) == LET he == H!HdrEnd(cs)
                   text == SubSeq(cs, 1, he.len) IN
  [he |-> he, line |-> H!ReqLine(text), hs |-> H!HLines(text), first |-> H!ChopCR(H!Split(text, 10)[1])]
Target(l) == LET w == H!Split(l, 32) IN IF Len(w) = 3 THEN w[2] ELSE <<>>
RequestOk(s, cs, path, protos) ==
  LET r == Request(cs) IN
  /\ r.he.found /\ r.he.rest = Len(cs)
  /\ r.line.c = "good" /\ r.line.m = 0 /\ r.line.ver = 2
  /\ Target(r.first) = (IF path = <<45>> THEN <<47>> ELSE H!PathOf(path))       \* "-": connected without naming a path
  /\ One(r.hs, H!nHost) /\ Upgrades(r.hs) /\ ConnUpgrade(r.hs) /\ NoBody(r.hs)
  /\ One(r.hs, nVer) /\ Val(r.hs, nVer) = <<49, 51>>
  /\ One(r.hs, nKey) /\ IsBase64(Val(r.hs, nKey)) /\ Len(Val(r.hs, nKey)) = 24 /\ Val(r.hs, nKey) \notin s.keys
  /\ IF protos = <<>> THEN H!Named(r.hs, nProto) = {} ELSE One(r.hs, nProto) /\ NoBlanks(Val(r.hs, nProto)) = JoinC(protos)

\* the bytes read before the first outcome which ends a handshake (would-blocks apart), and whether there was such an outcome
Term(t) == {i \in 1..Len(t) : t[i] > FR!WB}
Plain(t) == SelectSeq(IF Term(t) = {} THEN t ELSE SubSeq(t, 1, (CHOOSE i \in Term(t) : \A j \in Term(t) : i <= j) - 1), LAMBDA x : x < 256)
StartsBlocked(t) == t # <<>> /\ t[1] = FR!WB
LastOutcome(t) == t # <<>> /\ t[Len(t)] >= 256

\* class of what arrived: "good" must be accepted, "wrong" must be refused, "open" is incomplete, "odd" and "body" either (with a body, what comes behind is unclear)
Answer(b, key) ==
  LET he == H!HdrEnd(b)
      text == SubSeq(b, 1, he.len)
      line == H!RespLine(text)
      hs == H!HLines(text)
      o == H!Outcome("resp", b, HLIM, BLIM) IN
  IF ~he.found THEN IF o.st = {H!sNed} THEN [c |-> "open", n |-> 0] ELSE [c |-> "wrong", n |-> 0]
  ELSE IF line.c = "bad" \/ (line.c = "good" /\ line.status # 101) \/ he.len > HLIM \/ Accept(key) \notin Vals(hs, nAcc) THEN [c |-> "wrong", n |-> he.rest]
  ELSE IF line.c = "good" /\ line.ver = 2 /\ One(hs, nAcc) /\ Upgrades(hs) /\ ConnUpgrade(hs) /\ NoBody(hs) THEN [c |-> "good", n |-> he.rest]
  ELSE [c |-> IF NoBody(hs) THEN "odd" ELSE "body", n |-> he.rest]
Asked(b) ==
  LET he == H!HdrEnd(b)
      text == SubSeq(b, 1, he.len)
      line == H!ReqLine(text)
      hs == H!HLines(text)
      o == H!Outcome("req", b, HLIM, BLIM) IN
  IF ~he.found THEN IF o.st = {H!sNed} THEN [c |-> "open", n |-> 0] ELSE [c |-> "wrong", n |-> 0]
  ELSE IF line.c = "bad" \/ (line.c = "good" /\ line.m # 0) \/ he.len > HLIM \/ wWs \notin UNION {Tokens(v) : v \in Vals(hs, nUpg)} THEN [c |-> "wrong", n |-> he.rest]
  ELSE IF line.c = "good" /\ line.ver = 2 /\ Upgrades(hs) /\ ConnUpgrade(hs) /\ NoBody(hs) /\ One(hs, nKey) /\ IsBase64(Val(hs, nKey)) /\ One(hs, nVer) /\ Val(hs, nVer) = <<49, 51>>
       THEN [c |-> "good", n |-> he.rest]
  ELSE [c |-> IF NoBody(hs) THEN "odd" ELSE "body", n |-> he.rest]
AnswerOk(cs, reqhs) ==
  LET he == H!HdrEnd(cs)
      text == SubSeq(cs, 1, he.len)
      line == H!RespLine(text)
      hs == H!HLines(text) IN
  /\ he.found /\ he.rest = Len(cs)
  /\ line.c = "good" /\ line.status = 101 /\ line.ver = 2
  /\ Upgrades(hs) /\ ConnUpgrade(hs) /\ NoBody(hs)
  /\ One(hs, nAcc) /\ Val(hs, nAcc) = Accept(Val(reqhs, nKey))
  /\ H!Named(hs, nProto) # {} => H!Named(reqhs, nProto) # {}
Answers101(cs) == LET he == H!HdrEnd(cs)
                      line == H!RespLine(SubSeq(cs, 1, he.len)) IN he.found /\ line.c = "good" /\ line.status = 101

\* observations in agreement with the transport's state
Truth(s, e) == e.conn = s.open /\ e.desc = s.open /\ e.left = (IF s.open THEN 1 ELSE 0)
Done(s) == [s EXCEPT !.call = NoCall]
Failed(s, e) == ~s.open /\ Truth(s, e)
\* tokens behind the n-th byte; nothing but data may have been read beyond the message
Behind(t, n) == SubSeq(SelectSeq(t, LAMBDA x : x < 256), n + 1, Len(t))
Outcomes(t) == Len(SelectSeq(t, LAMBDA x : x >= 256))
Rest(t, n) == LET b == SelectSeq(t, LAMBDA x : x < 256) IN SubSeq(b, n + 1, Len(b))

RetConnect(s, e) ==
  LET c == s.call
      sent == RequestOk(s, c.cs, c.e.path, c.e.protos)
      key == Val(Request(c.cs).hs, nKey)
      a == Answer(Plain(s.toks), key)
      ended == Term(s.toks) # {}
      ok == e.st = Success
  IN
  IF e.thrown THEN {}
  ELSE IF c.conns = 0 \/ c.sf \/ (c.sw /\ ~ok) THEN IF ~ok /\ Failed(s, e) THEN {Done(s)} ELSE {}
  ELSE IF ~sent THEN {}
  ELSE IF ok THEN IF a.c \in {"good", "odd", "body"} /\ ~(LastOutcome(s.toks) /\ a.c = "good") /\ ~ended /\ s.open /\ c.closes = 0 /\ Truth(s, e)
                  THEN {[Done(s) EXCEPT !.est = TRUE, !.rdead = a.c = "body", !.toks = Rest(s.toks, a.n), !.keys = @ \cup {key}]} ELSE {}
  ELSE IF /\ Failed(s, e)
          /\ CASE a.c = "good" -> ended \/ StartsBlocked(s.toks)
               [] a.c = "open" -> ended \/ StartsBlocked(s.toks)
               [] OTHER -> TRUE
       THEN {[Done(s) EXCEPT !.keys = @ \cup {key}]} ELSE {}

RetAccept(s, e) ==
  LET c == s.call
      b == Plain(s.toks)
      a == Asked(b)
      hs == H!HLines(SubSeq(b, 1, H!HdrEnd(b).len))
      ended == Term(s.toks) # {}
      ok == e.st = Success /\ ~e.thrown
  IN
  IF c.conns = 0 THEN IF ~ok /\ ~e.thrown /\ Truth(s, e) THEN {Done(s)} ELSE {}
  ELSE IF ok THEN IF a.c \in {"good", "odd", "body"} /\ ~(LastOutcome(s.toks) /\ a.c = "good") /\ ~ended /\ ~c.sf /\ s.open /\ c.closes = 0 /\ Truth(s, e)
                     /\ AnswerOk(c.cs, hs)
                  THEN {[Done(s) EXCEPT !.est = TRUE, !.rdead = a.c = "body", !.toks = Rest(s.toks, a.n)]} ELSE {}
  ELSE IF /\ e.thrown /\ Failed(s, e)
          /\ CASE a.c = "good" -> ended \/ StartsBlocked(s.toks) \/ c.sf \/ c.sw
               [] a.c = "open" -> ended \/ StartsBlocked(s.toks)
               [] OTHER -> ~Answers101(c.cs)
       THEN {Done(s)} ELSE {}

(* ---- frames -------------------------------------------------------------------------------- *)
FrameIs(cs, fin, op, role, body) ==
  LET n == Len(body)
      key == IF role = "client" THEN FR!KeyOf(cs, n) ELSE <<>>
  IN cs = FR!FrameWire(fin, op, role, body, IF role = "client" /\ key = <<>> THEN <<0, 0, 0, 0>> ELSE key)

RetSend(s, e) ==
  LET c == s.call IN
  IF e.thrown \/ ~Truth(s, e) THEN {}
  ELSE IF ~c.was THEN IF e.st # Success /\ c.cs = <<>> THEN {Done(s)} ELSE {}
  ELSE IF s.wdead THEN {Done(s)}
  ELSE IF e.st = Success THEN IF ~c.sf /\ s.open /\ FrameIs(c.cs, c.e.fin, c.e.fop, s.role, c.e.pl) THEN {Done(s)} ELSE {}
  ELSE IF c.sf /\ ~FrameIs(c.cs, c.e.fin, c.e.fop, s.role, c.e.pl) THEN {[Done(s) EXCEPT !.wdead = TRUE]} ELSE {}

RetRecv(s, e) ==
  LET c == s.call
      t == s.toks
      r == FR!FRecv(FR!St(Append(t, FR!WB), <<>>), s.role)
      rest == SubSeq(t, r.c.p + 1, Len(t))
  IN
  IF e.thrown \/ ~Truth(s, e) THEN {}
  ELSE IF ~c.was THEN IF e.st # Success THEN {[Done(s) EXCEPT !.toks = <<>>]} ELSE {}
  ELSE IF s.rdead THEN {[Done(s) EXCEPT !.toks = <<>>]}
  ELSE IF r.c.p > Len(t) THEN {}                                    \* gave up although more could come
  ELSE (IF r.ok /\ e.st = Success /\ e.pl = r.body /\ e.fin = r.fin /\ e.fop = r.op /\ Outcomes(rest) = 0
        THEN {[Done(s) EXCEPT !.toks = rest]} ELSE {})
       \cup (IF r.ok /\ r.opt /\ FR!Failure(e.st) THEN {[Done(s) EXCEPT !.rdead = TRUE, !.toks = <<>>]} ELSE {})
       \cup (IF ~r.ok /\ e.st \in r.sts THEN {IF FR!Failure(e.st) THEN [Done(s) EXCEPT !.rdead = TRUE, !.toks = <<>>] ELSE [Done(s) EXCEPT !.toks = rest]} ELSE {})

(* ---- the end -------------------------------------------------------------------------------- *)
\* one frame, final, opcode 8, with at most a code and a reason
CloseFrame(cs, role) ==
  /\ Len(cs) >= 2 /\ cs[1] = 136 /\ cs[2] \div 128 = (IF role = "client" THEN 1 ELSE 0) /\ cs[2] % 128 \in {0} \cup (2..125)
  /\ Len(cs) = 2 + (IF role = "client" THEN 4 ELSE 0) + (cs[2] % 128)
RetDisc(s, e) ==
  LET c == s.call IN
  IF e.thrown \/ s.open \/ ~Truth(s, e) THEN {}
  ELSE IF c.closes = 0 THEN IF c.cs = <<>> THEN {Done(s)} ELSE {}
  ELSE IF c.closes = 1 /\ (s.wdead \/ c.sf \/ CloseFrame(c.cs, s.role)) /\ ~(c.sf /\ ~s.wdead /\ Len(c.cs) > 131) THEN {[Done(s) EXCEPT !.toks = <<>>]} ELSE {}
RetDel(s, e) ==
  LET c == s.call IN
  IF e.thrown \/ s.open \/ e.left # 0 THEN {}
  ELSE IF c.cs = <<>> \/ CloseFrame(c.cs, s.role) \/ c.sf \/ s.wdead THEN {Done(s)} ELSE {}

StepRet(s, e) ==
  IF s.call.op # e.op THEN {}
  ELSE CASE e.op = "connect" -> RetConnect(s, e)
         [] e.op = "accept" -> RetAccept(s, e)
         [] e.op = "send" -> RetSend(s, e)
         [] e.op = "recv" -> RetRecv(s, e)
         [] e.op = "disc" -> RetDisc(s, e)
         [] e.op = "del" -> RetDel(s, e)
         [] OTHER -> {}

(* ---- digests -------------------------------------------------------------------------------- *)
StepSha(s, e) == IF e.out = Sha1(e.b) THEN {s} ELSE {}
StepB64(s, e) == IF e.out = Base64(e.b) THEN {s} ELSE {}

Step(s, e) ==
  CASE e.e = "Call" -> StepCall(s, e)
    [] e.e = "TConn" -> StepConn(s, e)
    [] e.e = "TSend" -> IF s.call.op = "none" THEN {} ELSE StepSend(s, e)
    [] e.e = "TRecv" -> IF s.call.op = "none" THEN {} ELSE StepRecv(s, e)
    [] e.e = "TClose" -> IF s.call.op = "none" THEN {} ELSE StepClose(s, e)
    [] e.e = "Ret" -> StepRet(s, e)
    [] e.e = "New" -> IF s.open THEN {} ELSE {[s EXCEPT !.toks = <<>>, !.est = FALSE]}
    [] e.e = "Sha" -> StepSha(s, e)
    [] e.e = "B64" -> StepB64(s, e)
    [] OTHER -> {}
=============================================================================
