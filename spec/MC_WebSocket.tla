---------------------------- MODULE MC_WebSocket ----------------------------
(* The design of the endpoint - hand over byte by byte to a handshake parser, then read frames   *)
(* exactly, close on every failure - run against every peer in a small world and checked against *)
(* the contract in WebSocket.  Greedy, Leaky and Masked are designs which must be refused.       *)
EXTENDS WebSocket, Json
CONSTANTS Depth, Greedy, Leaky, Masked, Gen
VARIABLES c, open, est, role, wire, n, dead, hist
vars == <<c, open, est, role, wire, n, dead, hist>>

MCAccept(key) == <<65, 66>> \o SubSeq(key, 22, 22) \o <<61>>        \* stands for the digest
Txt(s) == s
CRLF == <<13, 10>>
L101 == <<72,84,84,80,47,49,46,49,32,49,48,49,32,83>> \o CRLF
L200 == <<72,84,84,80,47,49,46,49,32,50,48,48,32,83>> \o CRLF
Hdr(nm, v) == nm \o <<58>> \o v \o CRLF
Up == Hdr(nUpg, wWs) \o Hdr(H!nConn, nUpg)
Key(i) == <<65,65,65,65,65,65,65,65,65,65,65,65,65,65,65,65,65,65,65,65,65>> \o <<65 + i>> \o <<61, 61>>
Path == <<47, 97>>
Req(i) == <<71,69,84,32,47,97,32,72,84,84,80,47,49,46,49>> \o CRLF \o Up \o Hdr(H!nHost, <<104>>) \o Hdr(nKey, Key(i)) \o Hdr(nVer, <<49, 51>>) \o CRLF
Resp(i) == L101 \o Up \o Hdr(nAcc, Accept(Key(i))) \o CRLF
Answers == {"ok", "other", "none", "s200", "garbage", "half"}
AnswerText(k, i) ==
  CASE k = "ok" -> Resp(i)
    [] k = "other" -> L101 \o Up \o Hdr(nAcc, Accept(Key(i + 1))) \o CRLF
    [] k = "none" -> L101 \o Up \o CRLF
    [] k = "s200" -> L200 \o CRLF
    [] k = "garbage" -> <<71, 10, 10>>
    [] k = "half" -> SubSeq(Resp(i), 1, 20)
Requests == {"ok", "post", "plain", "garbage", "half"}
RequestText(k, i) ==
  CASE k = "ok" -> Req(i)
    [] k = "post" -> <<80,79,83,84>> \o Drop(Req(i), 3)
    [] k = "plain" -> <<71,69,84,32,47,97,32,72,84,84,80,47,49,46,49>> \o CRLF \o Hdr(H!nHost, <<104>>) \o CRLF
    [] k = "garbage" -> <<71, 10, 10>>
    [] k = "half" -> SubSeq(Req(i), 1, 20)
MKey == <<1, 2, 3, 4>>
Frame(peer, b) == FR!FrameWire(TRUE, 2, peer, b, MKey)
Behinds(peer) == {<<>>, Frame(peer, <<7>>), Frame(peer, <<7>>) \o Frame(peer, <<>>)}
Faults == {<<"none", 0>>} \cup {<<k, p>> : k \in {"W", "T", "X"}, p \in {0, 1, 2}}
\* an outcome at the beginning, in the middle or right behind the message m
Arrive(m, f, rest) ==
  LET at == IF f[2] = 0 THEN 0 ELSE IF f[2] = 1 THEN 10 ELSE Len(m) IN
  (IF f[1] = "none" \/ at > Len(m) THEN m ELSE SubSeq(m, 1, at) \o <<Tok(f[1])>> \o SubSeq(m, at + 1, Len(m))) \o rest \o <<FR!EOS>>

(* ---- recorded events -------------------------------------------------------------------- *)
RECURSIVE Recvs(_)
Recvs(t) ==
  IF t = <<>> THEN <<>>
  ELSE IF t[1] >= 256 THEN <<[e |-> "TRecv", k |-> CASE t[1] = FR!WB -> "W" [] t[1] = FR!TO -> "T" [] t[1] = FR!EOS -> "X" [] OTHER -> "E", b |-> <<>>]>> \o Recvs(Tail(t))
  ELSE LET S == {i \in 1..Len(t) : t[i] >= 256}
           m == IF S = {} THEN Len(t) ELSE (CHOOSE i \in S : \A j \in S : i <= j) - 1 IN
       <<[e |-> "TRecv", k |-> "D", b |-> SubSeq(t, 1, m)]>> \o Recvs(SubSeq(t, m + 1, Len(t)))
Call(op) == [e |-> "Call", op |-> op, path |-> Path, protos |-> <<>>, fop |-> 2, fin |-> TRUE, pl |-> <<5>>]
TC == [e |-> "TConn"]
SD(b) == [e |-> "TSend", k |-> "D", b |-> b]
SE == [e |-> "TSend", k |-> "E", b |-> <<>>]
CL == [e |-> "TClose", ok |-> TRUE]
Ret(op, st, thrown, o) == [e |-> "Ret", op |-> op, st |-> st, thrown |-> thrown, conn |-> o, desc |-> o, left |-> IF o THEN 1 ELSE 0, fop |-> 0, fin |-> FALSE, pl |-> <<>>]
RetF(st, r) == [e |-> "Ret", op |-> "recv", st |-> st, thrown |-> FALSE, conn |-> TRUE, desc |-> TRUE, left |-> 1, fop |-> r.op, fin |-> r.fin, pl |-> r.body]
RECURSIVE Run(_, _)
Run(S, evs) == IF evs = <<>> \/ S = {} THEN S ELSE Run(UNION {Step(s, Head(evs)) : s \in S}, Tail(evs))

(* ---- the design ---------------------------------------------------------------------------- *)
\* the handshake parser takes bytes until its message is complete or an outcome other than would-block
Parse(t) ==
  LET b == Plain(t)
      he == H!HdrEnd(b)
      Pos == SelectSeq([i \in 1..Len(t) |-> i], LAMBDA i : t[i] < 256)
  IN IF he.found THEN [used |-> Pos[he.rest], done |-> TRUE, msg |-> SubSeq(b, 1, he.rest)]
     ELSE [used |-> CHOOSE i \in Term(t) : \A j \in Term(t) : i <= j, done |-> FALSE, msg |-> b]
Log(x) == hist' = IF Gen THEN Append(hist, x) ELSE hist
Quit(t) == IF Leaky THEN <<>> ELSE <<CL>>

Connect(k, f, behind, s) ==
  LET t == Arrive(AnswerText(k, n), f, behind)
      p == Parse(t)
      a == Answer(p.msg, Key(n))
      used == IF Greedy /\ p.done THEN Len(t) - 1 ELSE p.used
      pre == (IF open THEN <<Call("connect"), CL, TC>> ELSE <<Call("connect"), TC>>)
      good == s = "none" /\ p.done /\ a.c = "good"
      evs == CASE s = "conn" -> (IF open THEN <<Call("connect"), CL>> ELSE <<Call("connect")>>) \o <<Ret("connect", 20, FALSE, FALSE)>>
               [] s = "E" -> pre \o <<SD(SubSeq(Req(n), 1, 9)), SE>> \o Quit(0) \o <<Ret("connect", 16, FALSE, Leaky)>>
               [] OTHER -> pre \o <<SD(Req(n))>> \o Recvs(SubSeq(t, 1, used))
                           \o (IF good THEN <<Ret("connect", 1, FALSE, TRUE)>> ELSE Quit(0) \o <<Ret("connect", 8, FALSE, Leaky)>>)
  IN
     /\ n' = n + 1 /\ c' = Run(c, evs) /\ open' = good /\ est' = good /\ role' = "client" /\ dead' = FALSE
     /\ wire' = IF good THEN SubSeq(t, used + 1, Len(t)) ELSE <<>>
     /\ Log(<<"connect", k, f[1], f[2], IF behind = <<>> THEN 0 ELSE IF Len(behind) < 5 THEN 1 ELSE 2, s>>)

DoAccept(k, f, behind, s) ==
  LET t == Arrive(RequestText(k, n), f, behind)
      p == Parse(t)
      a == Asked(p.msg)
      used == IF Greedy /\ p.done THEN Len(t) - 1 ELSE p.used
      good == s = "none" /\ p.done /\ a.c = "good"
      evs == <<Call("accept"), TC>> \o Recvs(SubSeq(t, 1, used))
             \o (IF good THEN <<SD(Resp(n)), Ret("accept", 1, FALSE, TRUE)>>
                 ELSE IF s = "E" /\ p.done /\ a.c = "good" THEN <<SD(SubSeq(Resp(n), 1, 9)), SE>> \o Quit(0) \o <<Ret("accept", 1, TRUE, Leaky)>>
                 ELSE Quit(0) \o <<Ret("accept", 1, TRUE, Leaky)>>)
  IN /\ ~open
     /\ n' = n + 1 /\ c' = Run(c, evs) /\ open' = good /\ est' = good /\ role' = "server" /\ dead' = FALSE
     /\ wire' = IF good THEN SubSeq(t, used + 1, Len(t)) ELSE <<>>
     /\ Log(<<"accept", k, f[1], f[2], IF behind = <<>> THEN 0 ELSE IF Len(behind) < 9 THEN 1 ELSE 2, s>>)

Recv ==
  LET r == FR!FRecv(FR!St(wire, <<>>), role)
      used == IF r.c.p < Len(wire) /\ ~r.ok /\ wire[r.c.p + 1] >= FR!EOS THEN r.c.p + 1 ELSE r.c.p
      evs == <<Call("recv")>> \o Recvs(SubSeq(wire, 1, used))
             \o <<IF r.ok THEN RetF(1, r) ELSE Ret("recv", CHOOSE st \in r.sts : TRUE, FALSE, TRUE)>>
  IN /\ est
     /\ c' = Run(c, evs)
     /\ wire' = SubSeq(wire, r.c.p + 1, Len(wire))
     /\ Log(<<"recv">>)
     /\ UNCHANGED <<open, est, role, n, dead>>
SendF(s) ==
  LET w == FR!FrameWire(TRUE, 2, role, <<5>>, MKey)
      evs == <<Call("send")>> \o (IF s = "E" THEN <<SD(SubSeq(w, 1, 1)), SE, Ret("send", 16, FALSE, TRUE)>> ELSE <<SD(w), Ret("send", 1, FALSE, TRUE)>>)
  IN /\ est /\ ~dead
     /\ c' = Run(c, evs) /\ dead' = (s = "E")
     /\ Log(<<"send", s>>)
     /\ UNCHANGED <<open, est, role, n, wire>>
Disc(s) ==
  LET w == FR!FrameWire(TRUE, 8, IF Masked THEN "client" ELSE role, <<>>, MKey)
      evs == <<Call("disc")>> \o (IF ~open THEN <<>> ELSE IF s = "E" \/ dead THEN <<SE, CL>> ELSE <<SD(w), CL>>) \o <<Ret("disc", -1, FALSE, FALSE)>>
  IN /\ c' = Run(c, evs) /\ open' = FALSE /\ est' = FALSE /\ wire' = <<>>
     /\ Log(<<"disc", s>>)
     /\ UNCHANGED <<role, n, dead>>
Del ==
  LET evs == <<Call("del")>> \o (IF open THEN <<CL>> ELSE <<>>) \o <<Ret("del", -1, FALSE, FALSE), [e |-> "New"]>>
  IN /\ c' = Run(c, evs) /\ open' = FALSE /\ est' = FALSE /\ wire' = <<>>
     /\ Log(<<"renew">>)
     /\ UNCHANGED <<role, n, dead>>

MInit == c = Init([x |-> 0]) /\ open = FALSE /\ est = FALSE /\ role = "none" /\ wire = <<>> /\ n = 0 /\ dead = FALSE /\ hist = <<>>
\* one thing out of the ordinary at a time, and what lies behind a message only matters after it
Worth(k, f, b, s) ==
  /\ (s # "none" => k = "ok" /\ f[1] = "none" /\ b = <<>>)
  /\ (k # "ok" => f[1] = "none" /\ b = <<>>)
  /\ (Gen /\ n > 0 => k = "ok" /\ f[1] = "none" /\ s = "none" /\ Len(b) < 8)
  /\ (b # <<>> => f[2] \in {0, 2} /\ (f[1] = "none" \/ f[2] = 2))
Next == /\ (IF Gen THEN Len(hist) < Depth ELSE n <= Depth)
        /\ \/ /\ n < Depth
              /\ \E f \in Faults, s \in {"none", "E", "conn"} :
                 \/ \E k \in Answers, b \in Behinds("server") : Worth(k, f, b, s) /\ Connect(k, f, b, s)
                 \/ \E k \in Requests, b \in Behinds("client") : Worth(k, f, b, s) /\ s # "conn" /\ DoAccept(k, f, b, s)
           \/ Recv \/ Del
           \/ \E s \in {"none", "E"} : SendF(s) \/ Disc(s)
MSpec == MInit /\ [][Next]_vars
Conforms == c # {}
Agrees == \A s \in c : s.open = open /\ s.est = est /\ s.call = NoCall
GenOut == (Gen /\ Len(hist) = Depth /\ hist[1][1] \in {"connect", "accept"}) => PrintT("GEN " \o ToJson(hist))
=============================================================================
