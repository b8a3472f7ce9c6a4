-------------------------------- MODULE Api --------------------------------
(* Conversions offered to users, and the library's value types: HTTP messages, packets and frames as values. *)
EXTENDS Http, MimeTable

\* ------------------------------------------------------------------ media types (C30)
Octet == "application/octet-stream"
Chars == << " ", "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9",
  ":", ";", "<", "=", ">", "?", "@", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V",
  "W", "X", "Y", "Z", "[", "\\", "]", "^", "_", "`", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s",
  "t", "u", "v", "w", "x", "y", "z", "{", "|", "}", "~" >>
RECURSIVE Text(_)
Text(b) == IF b = <<>> THEN "" ELSE Chars[b[1] - 31] \o Text(Tail(b))
Dot == 46
\* the extension of a name: what follows its last dot; a name without a dot is an extension itself
Ext(n) == LET D == {i \in 1..Len(n) : n[i] = Dot} IN
  IF D = {} THEN n ELSE SubSeq(n, (CHOOSE i \in D : \A j \in D : j <= i) + 1, Len(n))
TypeOf(x) == IF Len(x) \in 1..32 /\ Printable(x) /\ ("." \o Text(x)) \in DOMAIN MimeTable THEN MimeTable["." \o Text(x)] ELSE Octet
\* whether capitals matter is not promised
MimeOk(n, t) == t = TypeOf(Ext(n)) \/ t = TypeOf(Lower(Ext(n)))

\* ------------------------------------------------------------------ names (C31)
StatusName == << "Unknown", "Success", "Listen Failed", "Bind Failed", "The Socket Is Not Connected", "Error", "Would Block", "Connection Failed",
  "Handshake Failed", "Verification Failed", "Max Packet Size Exceeded", "Not Enough Data", "Parse Error", "HTTP Header Too Big", "HTTP Body Too Big",
  "Address Lookup Failure", "Send Error", "Receive Error", "Accept Error", "SSL Error", "No Route To Host", "Timeout" >>
WithErrno == {2, 3, 16, 17, 18}
WithOther == {15, 19}
StartsWith(t, p) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p
StatusOk(v, t, err, thrown) ==
  IF v \notin 0..21 THEN thrown \/ t = "Unknown"
  ELSE /\ ~thrown
       /\ LET n == StatusName[v + 1] IN
          CASE v \in WithErrno -> t = n \o " (" \o err \o ")"
            [] v \in WithOther -> t = n \/ StartsWith(t, n \o " (")
            [] OTHER -> t = n
\* a text as the name of a request type: a method it begins with, or a method it is the beginning of
TypeUnknown == 6
TypePartial == 7
RTypeOf(b) ==
  LET Is == {k \in 1..5 : Prefix(Methods[k], b)}
      May == {k \in 1..5 : Prefix(b, Methods[k])} IN
  IF Is # {} THEN (CHOOSE k \in Is : TRUE) - 1 ELSE IF May # {} THEN TypePartial ELSE TypeUnknown
RNameOf(v) == IF v \in 0..4 THEN Methods[v + 1] ELSE <<85, 78, 75, 78, 79, 87, 78>>
\* none chunked compress deflate gzip identity
Encodings == << <<110,111,110,101>>, <<99,104,117,110,107,101,100>>, <<99,111,109,112,114,101,115,115>>, <<100,101,102,108,97,116,101>>,
  <<103,122,105,112>>, <<105,100,101,110,116,105,116,121>> >>
TEncOf(b) == LET S == {k \in 1..6 : Encodings[k] = Lower(b)} IN IF S = {} THEN 0 ELSE (CHOOSE k \in S : TRUE) - 1

\* ------------------------------------------------------------------ network byte order (C32); the host is little-endian
Reverse(b) == [i \in 1..Len(b) |-> b[Len(b) + 1 - i]]

\* ------------------------------------------------------------------ values (C33)
HLim == 51200
BLim == 10485760
Empty == [x \in {} |-> <<>>]
None == [kind |-> "none"]
NewVal(kind) ==
  IF kind \in {"req", "resp"} THEN [kind |-> kind, uri |-> <<47>>, body |-> <<>>, type |-> -1, ver |-> 2, stat |-> 200, h |-> Empty, g |-> Empty, p |-> Empty,
                                    buf |-> <<>>, fin |-> FALSE, st |-> sNed, mode |-> "edit"]
  ELSE IF kind = "packet" THEN [kind |-> kind, d |-> <<>>, c |-> 0]
  ELSE [kind |-> kind, b |-> <<>>, op |-> 1, fin |-> TRUE]
IsHttp(v) == v.kind \in {"req", "resp"}
\* a parser which is edited, or a message which is fed, is beyond what is promised
Edit(v) == IF v.mode = "edit" THEN v ELSE [v EXCEPT !.mode = "void"]
Get(m, k) == IF Lower(k) \in DOMAIN m THEN m[Lower(k)] ELSE <<>>
Set(m, k, b) == [x \in DOMAIN m \union {Lower(k)} |-> IF x = Lower(k) THEN b ELSE m[x]]
HasOk(m, as) == \A i \in 1..Len(as) : (as[i][2] = 1) = (Lower(as[i][1]) \in DOMAIN m)
RECURSIVE Pairs(_, _)
Pairs(m, K) == IF K = {} THEN <<>> ELSE LET k == CHOOSE x \in K : TRUE IN << <<k, m[k]>> >> \o Pairs(m, K \ {k})
Outc(v) == Outcome(v.kind, v.buf, HLim, BLim)
LookOk(v, e) ==
  CASE v.mode = "void" -> TRUE
    [] v.mode = "edit" -> /\ e.uri = v.uri /\ e.body = v.body /\ e.ver = v.ver /\ e.status = v.stat /\ (v.type = -1 \/ e.type = v.type)
                          /\ HasOk(v.h, e.h) /\ HasOk(v.g, e.g) /\ HasOk(v.p, e.p)
    [] OTHER -> v.st # sOk \/ LET o == Outc(v) IN
                ~o.fl \/ (/\ e.ver = o.line.ver /\ (o.body = AnyB \/ e.body = o.body)
                          /\ \A i \in 1..Len(e.h) : (e.h[i][2] = 1) = (Named(o.hs, Lower(e.h[i][1])) # {})
                          /\ IF v.kind = "resp" THEN e.status = o.line.status ELSE e.type = o.line.m /\ e.uri = o.line.path)
\* the outcomes of step e on value v: set of values
StepVal(v, e) ==
  CASE e.e = "Uri" -> {IF e.b = <<>> THEN Edit(v) ELSE [Edit(v) EXCEPT !.uri = PathOf(e.b)]}
    [] e.e = "Body" -> {[Edit(v) EXCEPT !.body = e.b]}
    [] e.e = "Type" -> {[Edit(v) EXCEPT !.type = e.v]}
    [] e.e = "Ver" -> {[Edit(v) EXCEPT !.ver = e.v]}
    [] e.e = "Stat" -> {[Edit(v) EXCEPT !.stat = e.v]}
    [] e.e = "Put" -> {[Edit(v) EXCEPT ![e.m] = Set(@, e.k, e.b)]}
    [] e.e = "Read" -> IF v.mode # "edit" \/ e.b = Get(v[e.m], e.k) THEN {[v EXCEPT ![e.m] = Set(@, e.k, e.b)]} ELSE {}
    [] e.e = "Look" -> IF LookOk(v, e) THEN {v} ELSE {}
    [] e.e = "Built" -> IF v.mode # "edit" THEN {v}
         ELSE IF BuildOk(v.kind, [type |-> v.type, uri |-> v.uri, ver |-> v.ver, status |-> v.stat, h |-> Pairs(v.h, DOMAIN v.h),
                                  g |-> Pairs(v.g, DOMAIN v.g), p |-> Pairs(v.p, DOMAIN v.p), body |-> v.body, host |-> e.host, out |-> e.b, same |-> TRUE]) THEN {v} ELSE {}
    [] e.e = "Feed" -> LET w == IF v.mode = "edit" /\ v = [NewVal(v.kind) EXCEPT !.type = v.type] THEN [v EXCEPT !.mode = "parse"]
                                ELSE IF v.mode = "edit" THEN [v EXCEPT !.mode = "void"] ELSE v
                           b == w.buf \o e.b IN
         IF w.mode = "void" THEN {w}
         ELSE IF w.fin THEN {[w EXCEPT !.mode = "void"]}
         ELSE IF e.st \in Outcome(w.kind, b, HLim, BLim).st THEN {[w EXCEPT !.buf = b, !.fin = e.st # sNed, !.st = e.st]} ELSE {}
    [] e.e = "PPut" -> {[v EXCEPT !.d = @ \o e.b]}
    [] e.e = "PTake" -> IF v.c + e.c <= Len(v.d) THEN (IF ~e.thrown /\ e.b = SubSeq(v.d, v.c + 1, v.c + e.c) THEN {[v EXCEPT !.c = @ + e.c]} ELSE {})
                        ELSE IF e.thrown THEN {v} ELSE {}
    [] e.e = "PCur" -> {[v EXCEPT !.c = MinI(e.v, Len(v.d))]}
    [] e.e = "PClear" -> {[v EXCEPT !.d = <<>>, !.c = 0]}
    [] e.e = "PLook" -> IF e.size = Len(v.d) /\ e.cur = v.c /\ e.rem = Len(v.d) - v.c THEN {v} ELSE {}
    [] e.e = "WPay" -> {[v EXCEPT !.b = e.b]}
    [] e.e = "WOp" -> {[v EXCEPT !.op = e.v]}
    [] e.e = "WFin" -> {[v EXCEPT !.fin = e.v]}
    [] e.e = "WLook" -> IF e.b = v.b /\ e.op = v.op /\ e.fin = v.fin THEN {v} ELSE {}
    [] OTHER -> {}

AInit(e) == {[v |-> [i \in 0..3 |-> None]]}
AStep(s, e) ==
  CASE e.e = "Mime" -> IF MimeOk(e.n, e.t) THEN {s} ELSE {}
    [] e.e = "Status" -> IF StatusOk(e.v, e.t, e.err, e.thrown) THEN {s} ELSE {}
    [] e.e = "RType" -> IF e.r = RTypeOf(e.b) THEN {s} ELSE {}
    [] e.e = "RName" -> IF e.b = RNameOf(e.v) THEN {s} ELSE {}
    [] e.e = "TEnc" -> IF e.r = TEncOf(e.b) THEN {s} ELSE {}
    [] e.e = "Net" -> IF e.o = Reverse(e.i) THEN {s} ELSE {}
    [] e.e = "New" -> {[s EXCEPT !.v[e.n] = NewVal(e.kind)]}
    [] e.e = "Drop" -> {[s EXCEPT !.v[e.n] = None]}
    \* a copy is an equal value, and a value of its own; a moved value is gone from where it was
    [] e.e = "Give" -> {[s EXCEPT !.v[e.to] = s.v[e.n], !.v[e.n] = IF e.moved THEN None ELSE @]}
    [] OTHER -> IF "n" \notin DOMAIN e \/ s.v[e.n] = None THEN {} ELSE {[s EXCEPT !.v[e.n] = w] : w \in StepVal(s.v[e.n], e)}
=============================================================================
