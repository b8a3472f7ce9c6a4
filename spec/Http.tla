-------------------------------- MODULE Http --------------------------------
(* HTTP/1.x requests and responses as functions of the bytes received so far: the status each  *)
(* prefix must give, the message a complete one means, the text a built one may be, and the    *)
(* transfer of one over a socket.  Where the standard leaves freedom the sets have many members. *)
EXTENDS Bytes, IOUtils

CR == 13
LF == 10
SP == 32
sOk == 1
sNed == 11
sParse == 12
sHBig == 13
sBBig == 14
sWB == 6
sTO == 21
Documented == {sOk, sNed, sParse, sHBig, sBBig}

Methods == << <<71,69,84>>, <<80,79,83,84>>, <<80,85,84>>, <<68,69,76,69,84,69>>, <<80,65,84,67,72>> >>  \* GET POST PUT DELETE PATCH
HttpWord == <<72,84,84,80,47>>                  \* HTTP/
V10 == <<72,84,84,80,47,49,46,48>>
V11 == <<72,84,84,80,47,49,46,49>>
nCL == <<99,111,110,116,101,110,116,45,108,101,110,103,116,104>>                              \* content-length
nTE == <<116,114,97,110,115,102,101,114,45,101,110,99,111,100,105,110,103>>                   \* transfer-encoding
nHost == <<104,111,115,116>>
nConn == <<99,111,110,110,101,99,116,105,111,110>>
nCT == <<99,111,110,116,101,110,116,45,116,121,112,101>>                                      \* content-type
wChunked == <<99,104,117,110,107,101,100>>

\* ------------------------------------------------------------------ text
Lower(s) == [i \in 1..Len(s) |-> IF s[i] \in 65..90 THEN s[i] + 32 ELSE s[i]]
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Compat(a, b) == Prefix(a, b) \/ Prefix(b, a)
Digit(c) == c \in 48..57
Hex(c) == Digit(c) \/ c \in 65..70 \/ c \in 97..102
HexV(c) == IF Digit(c) THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE c - 87
\* first index >= i where s holds c, or 0
RECURSIVE Idx(_, _, _)
Idx(s, c, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = c THEN i ELSE Idx(s, c, i + 1)
RECURSIVE Split(_, _)
Split(s, c) == LET i == Idx(s, c, 1) IN IF i = 0 THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o Split(SubSeq(s, i + 1, Len(s)), c)
RECURSIVE TrimL(_, _)
TrimL(s, C) == IF s # <<>> /\ s[1] \in C THEN TrimL(Tail(s), C) ELSE s
RECURSIVE TrimR(_, _)
TrimR(s, C) == IF s # <<>> /\ s[Len(s)] \in C THEN TrimR(SubSeq(s, 1, Len(s) - 1), C) ELSE s
ChopCR(s) == IF s # <<>> /\ s[Len(s)] = CR THEN SubSeq(s, 1, Len(s) - 1) ELSE s
Printable(s) == \A i \in 1..Len(s) : s[i] \in 32..126
RECURSIVE DecV(_, _, _)
DecV(s, i, v) == IF i > Len(s) THEN v ELSE IF v > 99999999 THEN 999999999 ELSE DecV(s, i + 1, v * 10 + s[i] - 48)
RECURSIVE HexNum(_, _, _)
HexNum(s, i, v) == IF i > Len(s) THEN v ELSE IF v > 99999999 THEN 999999999 ELSE HexNum(s, i + 1, v * 16 + HexV(s[i]))

\* ------------------------------------------------------------------ header section
\* the header ends at the first empty line; lines end in LF, optionally preceded by CR
RECURSIVE HdrEndAt(_, _)
HdrEndAt(b, from) ==
  LET i == Idx(b, LF, from) IN
  IF i = 0 THEN [found |-> FALSE, len |-> 0, rest |-> 0]
  ELSE LET j == IF i + 1 <= Len(b) /\ b[i + 1] = CR THEN i + 2 ELSE i + 1 IN
       IF j <= Len(b) /\ b[j] = LF
       THEN [found |-> TRUE, len |-> (IF i > 1 /\ b[i - 1] = CR THEN i - 2 ELSE i - 1), rest |-> j]   \* body starts after byte j
       ELSE HdrEndAt(b, i + 1)
HdrEnd(b) == HdrEndAt(b, 1)
\* b could still turn out to be a header of at most lim bytes followed by (part of) an empty line
Ends == {<<>>, <<CR>>, <<LF>>, <<CR, LF>>, <<CR, LF, CR>>}
MayStillFit(b, lim) == \E t \in Ends : Len(b) - Len(t) <= lim /\ Len(t) <= Len(b) /\ SubSeq(b, Len(b) - Len(t) + 1, Len(b)) = t

HLine(s) == LET c == Idx(s, 58, 1) IN
  IF c = 0 THEN [ok |-> FALSE, name |-> <<>>, val |-> <<>>]
  ELSE [ok |-> TRUE, name |-> Lower(SubSeq(s, 1, c - 1)), val |-> TrimL(SubSeq(s, c + 1, Len(s)), {SP, 9})]
\* header lines of a header section (without its first line)
HLines(text) ==
  LET ls == Split(text, LF) IN
  SelectSeq([k \in 1..Len(ls) - 1 |-> HLine(ChopCR(ls[k + 1]))], LAMBDA h : h.ok)
Named(hs, n) == {k \in 1..Len(hs) : hs[k].name = n}
First(S) == CHOOSE k \in S : \A j \in S : k <= j
\* announced length: -1 none, -2 malformed or contradictory
ContentLength(hs) ==
  LET S == Named(hs, nCL) IN
  IF S = {} THEN -1
  ELSE LET v == TrimR(hs[First(S)].val, {SP, 9}) IN
       IF v = <<>> \/ (\E i \in 1..Len(v) : ~Digit(v[i])) \/ (\E k \in S : hs[k].val # hs[First(S)].val) THEN -2
       ELSE IF Len(TrimL(v, {48})) > 18 THEN -2 ELSE DecV(v, 1, 0)
Chunked(hs) == \E k \in Named(hs, nTE) : LET w == Split(hs[k].val, 44) IN \E i \in 1..Len(w) : Lower(TrimR(TrimL(w[i], {SP}), {SP})) = wChunked
HasTE(hs) == Named(hs, nTE) # {}
OddTE(hs) == \E k \in Named(hs, nTE) : ~Printable(hs[k].val)

\* name=value&name=value
Args(s) == LET p == Split(s, 38) IN
  [k \in 1..Len(p) |-> LET q == Idx(p[k], 61, 1) IN
     IF q = 0 THEN [n |-> Lower(p[k]), v |-> <<>>, bare |-> TRUE] ELSE [n |-> Lower(SubSeq(p[k], 1, q - 1)), v |-> SubSeq(p[k], q + 1, Len(p[k])), bare |-> FALSE]]
\* an asked argument a = <<name, exists, value>> agrees with the list of arguments
ArgOk(as, a) ==
  LET n == Lower(a[1])
      S == {k \in 1..Len(as) : as[k].n = n} IN
  IF S = {} THEN a[2] = 0
  ELSE IF \E k \in S : as[k].bare THEN TRUE
  ELSE a[2] = 1 /\ \E k \in S : as[k].v = a[3]

\* ------------------------------------------------------------------ first lines
\* class: "good" must be understood, "bad" must be refused, "odd" either
ReqLine(text) ==
  LET l == ChopCR(Split(text, LF)[1])
      i == Idx(l, SP, 1)
      w == IF i = 0 THEN l ELSE SubSeq(l, 1, i - 1)
      M == {k \in 1..5 : Methods[k] = w}
      j == IF i = 0 THEN 0 ELSE Idx(l, SP, i + 1)
      tg == IF j = 0 THEN <<>> ELSE SubSeq(l, i + 1, j - 1)
      v == IF j = 0 THEN <<>> ELSE SubSeq(l, j + 1, Len(l))
      q == Idx(tg, 63, 1)
      good == i # 0 /\ j # 0 /\ tg # <<>> /\ tg[1] = 47 /\ v \in {V10, V11} /\ Printable(tg) /\ Idx(tg, 35, 1) = 0
  IN IF M = {} THEN [c |-> "bad"]
     ELSE IF ~good THEN [c |-> "odd"]
     ELSE [c |-> "good", m |-> (CHOOSE k \in M : TRUE) - 1, ver |-> IF v = V10 THEN 1 ELSE 2,
           path |-> IF q = 0 THEN tg ELSE SubSeq(tg, 1, q - 1), query |-> IF q = 0 THEN <<>> ELSE SubSeq(tg, q + 1, Len(tg))]
RespLine(text) ==
  LET l == ChopCR(Split(text, LF)[1])
      i == Idx(l, SP, 1)
      v == IF i = 0 THEN l ELSE SubSeq(l, 1, i - 1)
      j == IF i = 0 THEN 0 ELSE Idx(l, SP, i + 1)
      s == IF i = 0 THEN <<>> ELSE SubSeq(l, i + 1, IF j = 0 THEN Len(l) ELSE j - 1)
      dig3 == Len(s) = 3 /\ \A k \in 1..3 : Digit(s[k])
  IN IF i = 0 \/ ~Prefix(HttpWord, v) \/ Len(v) < 6 \/ (\E k \in 6..Len(v) : ~Digit(v[k]) /\ v[k] # 46) \/ s = <<>> \/ ~Digit(s[1]) THEN [c |-> "bad"]
     ELSE IF v \in {V10, V11} /\ dig3 /\ Printable(l) THEN [c |-> "good", ver |-> IF v = V10 THEN 1 ELSE 2, status |-> DecV(s, 1, 0)]
     ELSE [c |-> "odd"]
\* the bytes so far can begin an acceptable message
StartOk(kind, b) ==
  LET i == Idx(b, LF, 1)
      l == SubSeq(b, 1, (IF i = 0 THEN Len(b) ELSE i - 1)) IN
  IF kind = "req"
  THEN IF i # 0 THEN ReqLine(b).c = "good" ELSE \E k \in 1..5 : Compat(Methods[k] \o <<SP, 47>>, l)
  ELSE IF i # 0 THEN RespLine(b).c = "good" ELSE Compat(V10 \o <<SP>>, l) \/ Compat(V11 \o <<SP>>, l)

\* ------------------------------------------------------------------ chunked bodies
\* [st: allowed statuses, out: decoded bytes when complete]
MayPend(n, lim) == IF n > lim THEN {sNed, sParse, sHBig, sBBig} ELSE {sNed}
CrLfFrom(r, p) == FindFrom(r, <<CR, LF>>, p)       \* offsets are 0 based: bytes before
RECURSIVE Trailers(_, _, _, _)
Trailers(r, p, out, hlim) ==
  LET q == CrLfFrom(r, p) IN
  IF q = -1 THEN [st |-> MayPend(Len(r) - p, hlim), out |-> out]
  ELSE IF q = p THEN [st |-> {sOk}, out |-> out]
  ELSE Trailers(r, q + 2, out, hlim)
RECURSIVE HexPre(_, _)
HexPre(r, i) == IF i <= Len(r) /\ Hex(r[i]) THEN HexPre(r, i + 1) ELSE i - 1      \* last index of the hex digits from i
RECURSIVE Dec(_, _, _, _, _)
Dec(r, p, out, hlim, blim) ==
  LET q == CrLfFrom(r, p)
      h == HexPre(r, p + 1)
      nd == h - p
      val == HexNum(SubSeq(r, p + 1, h), 1, 0)
      ext == TrimL(SubSeq(r, h + 1, IF q = -1 THEN Len(r) ELSE q), {SP, 9})
      wellformed == nd > 0 /\ (ext = <<>> \/ ext[1] = 59 \/ (q = -1 /\ ext = <<CR>>)) /\ (\A k \in 1..Len(ext) : ext[k] \notin {LF} /\ (ext[k] = CR => q = -1 /\ k = Len(ext)))
      room == blim - Len(out)
      have == Len(r) - (q + 2)          \* bytes after the size line
  IN
  IF q = -1
  THEN IF p = Len(r) THEN [st |-> {sNed}, out |-> out]
       ELSE IF nd = 0 \/ ~wellformed THEN [st |-> {sNed, sParse} \union MayPend(Len(r) - p, hlim), out |-> out]
       ELSE IF val > room THEN [st |-> {sNed, sBBig} \union MayPend(Len(r) - p, hlim), out |-> out]
       ELSE [st |-> MayPend(Len(r) - p, hlim), out |-> out]
  ELSE IF nd = 0 THEN [st |-> {sParse}, out |-> out]
  ELSE IF ext # <<>> /\ ext[1] \notin {59, CR, LF} /\ q - p <= hlim THEN [st |-> {sParse}, out |-> out]
  ELSE IF ~wellformed THEN [st |-> Documented, out |-> <<-1>>]
  ELSE IF q - p > hlim THEN [st |-> Documented, out |-> <<-1>>]
  ELSE IF val > room THEN [st |-> IF have > room THEN {sBBig} ELSE {sNed, sBBig}, out |-> out]
  ELSE IF val = 0 THEN Trailers(r, q + 2, out, hlim)
  ELSE IF have < val + 2
       THEN [st |-> IF have = val + 1 /\ r[Len(r)] # CR THEN {sNed, sParse} ELSE {sNed}, out |-> out]
  ELSE IF SubSeq(r, q + 2 + val + 1, q + 2 + val + 2) # <<CR, LF>> THEN [st |-> {sParse}, out |-> out]
  ELSE Dec(r, q + 2 + val + 2, out \o SubSeq(r, q + 3, q + 2 + val), hlim, blim)

\* ------------------------------------------------------------------ the meaning of a prefix
\* [st: allowed statuses, fl: are the fields determined, line, hs, body, bodies: allowed bodies or <<-1>> any]
AnyB == <<-1>>
Res(st, fl, line, hs, body) == [st |-> st, fl |-> fl, line |-> line, hs |-> hs, body |-> body]
NoLine == [c |-> "none"]
BodyPart(kind, r, line, hs, hlim, blim) ==
  LET cl == ContentLength(hs) IN
  IF OddTE(hs) THEN Res(Documented, FALSE, line, hs, AnyB)
  ELSE IF kind = "resp" /\ Chunked(hs) THEN
     LET d == Dec(r, 0, <<>>, hlim, blim) IN Res(d.st, d.out # AnyB, line, hs, d.out)
  ELSE IF cl = -2 \/ (kind = "req" /\ HasTE(hs)) THEN Res(Documented, FALSE, line, hs, AnyB)
  ELSE IF cl = -1 THEN Res({sOk} \union (IF Len(r) > blim THEN {sBBig} ELSE {}), TRUE, line, hs, IF r = <<>> THEN <<>> ELSE AnyB)
  ELSE IF cl > blim THEN Res(IF Len(r) > blim THEN {sBBig} ELSE {sNed, sBBig}, FALSE, line, hs, AnyB)
  ELSE IF Len(r) >= cl THEN Res({sOk}, TRUE, line, hs, SubSeq(r, 1, cl))
  ELSE Res({sNed}, FALSE, line, hs, AnyB)

Outcome(kind, b, hlim, blim) ==
  LET e == HdrEnd(b) IN
  IF ~e.found
  THEN LET fits == IF Len(b) <= hlim THEN {sNed} ELSE IF MayStillFit(b, hlim) THEN {sNed}
                   ELSE IF Len(b) > hlim + 3 THEN {sHBig} ELSE {sNed, sHBig}
       IN Res(IF StartOk(kind, b) THEN fits ELSE fits \union {sParse}, FALSE, NoLine, <<>>, AnyB)
  ELSE LET text == SubSeq(b, 1, e.len)
           line == IF kind = "req" THEN ReqLine(text) ELSE RespLine(text) IN
       IF e.len > hlim THEN Res(IF line.c = "good" THEN {sHBig} ELSE {sHBig, sParse}, FALSE, line, <<>>, AnyB)
       ELSE IF line.c = "bad" THEN Res({sParse}, FALSE, line, <<>>, AnyB)
       ELSE LET B == BodyPart(kind, SubSeq(b, e.rest + 1, Len(b)), line, HLines(text), hlim, blim) IN
            IF line.c = "odd" THEN [B EXCEPT !.st = @ \union {sParse}, !.fl = FALSE] ELSE B

\* ------------------------------------------------------------------ reported fields of a complete message
HdrOk(hs, a) ==
  LET S == Named(hs, Lower(a[1])) IN
  IF S = {} THEN a[2] = 0
  ELSE LET v == hs[First(S)].val IN
       ~Printable(v) \/ (a[2] = 1 /\ (a[3] = v \/ a[3] = TrimR(v, {SP})))
FormText(body) == TrimR(TrimL(body, {CR, LF}), {CR, LF})
FieldsOk(kind, o, e) ==
  ~o.fl \/
  ( /\ e.ver = o.line.ver
    /\ o.body = AnyB \/ e.body = o.body
    /\ \A k \in 1..Len(e.h) : HdrOk(o.hs, e.h[k])
    /\ kind = "resp" => e.status = o.line.status
    /\ kind = "req" =>
         /\ e.type = o.line.m /\ e.uri = o.line.path
         /\ \A k \in 1..Len(e.g) : ArgOk(Args(o.line.query), e.g[k])
         /\ (o.line.m = 1 /\ o.body # AnyB) =>
              LET t == FormText(o.body) IN
              (\E i \in 1..Len(t) : t[i] \in {CR, LF}) \/ \A k \in 1..Len(e.p) : ArgOk(Args(t), e.p[k]) )

\* ------------------------------------------------------------------ construction
PathOf(u) == IF u = <<>> THEN <<47>> ELSE IF u[1] = 47 THEN u ELSE <<47>> \o u
Keys(ps) == {Lower(ps[k][1]) : k \in 1..Len(ps)}
SameArgs(as, ps) ==
  /\ Len(as) = Len(ps)
  /\ \A k \in 1..Len(ps) : \E j \in 1..Len(as) : ~as[j].bare /\ as[j].n = Lower(ps[k][1]) /\ as[j].v = ps[k][2]
RECURSIVE DecText(_)
DecText(n) == IF n < 10 THEN <<48 + n>> ELSE DecText(n \div 10) \o <<48 + (n % 10)>>
\* the header lines are the user's, each once and unchanged, and those the library may add
BuiltHeaders(hs, e, added) ==
  /\ \A k \in 1..Len(e.h) : LET S == Named(hs, Lower(e.h[k][1])) IN Cardinality(S) = 1 /\ \A j \in S : hs[j].val = e.h[k][2]
  /\ \A j \in 1..Len(hs) : hs[j].name \in Keys(e.h) \/ hs[j].name \in added
  /\ \A n \in added : Cardinality(Named(hs, n)) <= 1
BuildOk(kind, e) ==
  LET he == HdrEnd(e.out)
      text == SubSeq(e.out, 1, he.len)
      hs == HLines(text)
      rest == SubSeq(e.out, he.rest + 1, Len(e.out))
      cl == ContentLength(hs)
      line == IF kind = "req" THEN ReqLine(text) ELSE RespLine(text)
      user(n) == n \in Keys(e.h)
  IN /\ he.found /\ e.same
     /\ \A k \in 1..he.rest : e.out[k] = LF => k > 1 /\ e.out[k - 1] = CR         \* every line ends with CRLF, as the wire format has it
     /\ line.c = "good" /\ line.ver = (IF e.ver = 1 THEN 1 ELSE 2)
     /\ Cardinality(Named(hs, nCL)) <= 1
     /\ IF rest = <<>> THEN cl \in {-1, 0} ELSE cl = Len(rest)
     /\ IF kind = "req"
        THEN /\ line.m = (IF e.type \in 0..4 THEN e.type ELSE 0)
             /\ line.path = PathOf(e.uri)
             /\ IF e.g = <<>> THEN line.query = <<>> ELSE SameArgs(Args(line.query), e.g)
             /\ BuiltHeaders(hs, e, {nHost, nConn, nCL})
             /\ \A j \in Named(hs, nHost) : user(nHost) \/ hs[j].val = e.host
             /\ e.p = <<>> => rest = e.body
             /\ (e.p # <<>> /\ e.body = <<>>) => SameArgs(Args(FormText(rest)), e.p)
        ELSE /\ line.status = e.status
             /\ BuiltHeaders(hs, e, {nCT, nConn, nCL})
             /\ rest = e.body

\* ------------------------------------------------------------------ transitions
Init(e) == {[kind |-> e.kind, hlim |-> e.hlim, blim |-> e.blim, buf |-> <<>>, fin |-> FALSE, st |-> sNed, fail |-> "", text |-> <<>>, acc |-> <<>>]}
Out(s, b) == Outcome(s.kind, b, s.hlim, s.blim)

StepFeed(s, e) ==
  IF e.thrown THEN {}
  ELSE IF s.fin THEN (IF e.st \in Documented THEN {[s EXCEPT !.st = 0]} ELSE {})     \* after an outcome: unspecified, but contained
  ELSE LET b == s.buf \o e.b IN
       IF e.st \in Out(s, b).st THEN {[s EXCEPT !.buf = b, !.fin = e.st # sNed, !.st = e.st]} ELSE {}
StepFlds(s, e) == IF s.st # sOk \/ FieldsOk(s.kind, Out(s, s.buf), e) THEN {s} ELSE {}

\* over a socket: data is taken only while the message is incomplete
StepSRead(s, e) ==
  IF s.fail \notin {"", "W"} THEN {}
  ELSE IF s.buf # <<>> /\ sNed \notin Out(s, s.buf).st THEN {}
  ELSE IF e.k = "D" THEN {[s EXCEPT !.buf = @ \o e.b, !.fail = ""]}
  ELSE {[s EXCEPT !.fail = e.k]}
StepRecvd(s, e) ==
  LET final == Out(s, s.buf).st
      ok == CASE s.fail = "" -> e.st \in final \ {sNed}
              [] s.buf = <<>> /\ s.fail = "W" -> e.st = sWB
              [] OTHER -> e.st \notin {sOk, sNed, 0} /\ (e.st = sWB => s.buf = <<>>)
  IN IF ok THEN {[s EXCEPT !.fin = TRUE, !.st = e.st]} ELSE {}
StepSWrite(s, e) ==
  LET a == s.acc \o e.b IN
  IF Prefix(a, s.text) /\ s.fail \in {"", "W"} THEN {[s EXCEPT !.acc = a, !.fail = IF e.st = sOk THEN "" ELSE IF e.st = sWB THEN "W" ELSE "E"]} ELSE {}
StepSent(s, e) ==
  IF (e.st = sOk) = (s.acc = s.text) /\ (s.fail = "E" => e.st # sOk) /\ (s.fail = "" => e.st = sOk) THEN {s} ELSE {}

Step(s, e) ==
  CASE e.e = "Feed" -> StepFeed(s, e)
    [] e.e = "Flds" -> StepFlds(s, e)
    [] e.e = "Build" -> IF BuildOk(s.kind, e) THEN {[s EXCEPT !.text = e.out]} ELSE {}
    [] e.e = "Fresh" -> {[s EXCEPT !.buf = <<>>, !.fin = FALSE, !.st = sNed]}
    [] e.e = "SRead" -> StepSRead(s, e)
    [] e.e = "Recvd" -> StepRecvd(s, e)
    [] e.e = "SWrite" -> StepSWrite(s, e)
    [] e.e = "Sent" -> StepSent(s, e)
    [] OTHER -> {}
=============================================================================
