------------------------------- MODULE MC_Url -------------------------------
(* A left-to-right scanner for URLs against their decomposition, reassembly as a fixpoint, and the percent codec. *)
EXTENDS Url, Json
CONSTANTS Alpha, Depth, Starts
VARIABLES s, m
vars == <<s, m>>

OneStart == << <<104, 84, 116, 112, 115, 58, 47, 47>> >>
NoStart == <<>>
\* scanner: mode, word under the first delimiter, parts so far
M0 == [mode |-> "start", w |-> <<>>, u |-> Blank]
Put(f, c) == [m EXCEPT !.u[f] = Append(@, c)]
Open(mm, c) ==       \* a delimiter which ends the authority
  CASE c = Slash -> [mm EXCEPT !.mode = "path", !.u.path = <<Slash>>]
    [] c = Quest -> [mm EXCEPT !.mode = "query"]
    [] OTHER -> [mm EXCEPT !.mode = "frag"]
Ends3 == {Slash, Quest, Hash}
AsHost(mm) == [mm EXCEPT !.u.host = mm.w]
InPath(mm, c) == CASE c = Quest -> [mm EXCEPT !.mode = "query"] [] c = Hash -> [mm EXCEPT !.mode = "frag"] [] OTHER -> [mm EXCEPT !.u.path = Append(@, c), !.mode = "path"]
Scan(c) ==
  CASE m.mode = "start" -> IF c = Colon THEN [m EXCEPT !.mode = "c1"] ELSE IF c \in Ends3 THEN Open(AsHost(m), c) ELSE [m EXCEPT !.w = Append(@, c)]
    [] m.mode = "c1" -> IF c = Slash THEN [m EXCEPT !.mode = "c2"] ELSE IF c \in Ends3 THEN Open(AsHost(m), c) ELSE [AsHost(m) EXCEPT !.mode = "port", !.u.port = <<c>>]
    [] m.mode = "c2" -> IF c = Slash THEN [m EXCEPT !.mode = "host", !.u.scheme = SchemeOf(m.w)] ELSE InPath([AsHost(m) EXCEPT !.u.path = <<Slash>>], c)
    [] m.mode = "host" -> IF c = Colon THEN [m EXCEPT !.mode = "port"] ELSE IF c \in Ends3 THEN Open(m, c) ELSE Put("host", c)
    [] m.mode = "port" -> IF c \in Ends3 THEN Open(m, c) ELSE Put("port", c)
    [] m.mode = "path" -> InPath(m, c)
    [] m.mode = "query" -> IF c = Hash THEN [m EXCEPT !.mode = "frag"] ELSE Put("query", c)
    [] OTHER -> Put("frag", c)
Done == LET e == CASE m.mode = "c1" -> AsHost(m) [] m.mode = "c2" -> [AsHost(m) EXCEPT !.u.path = <<Slash>>] [] OTHER -> m IN WithPort(e.u)

MInit == s = <<>> /\ m = M0
MNext == \/ /\ s = <<>> /\ \E i \in 1..Len(Starts) : s' = Starts[i] /\ m' = [mode |-> "host", w |-> <<>>, u |-> [Blank EXCEPT !.scheme = SchemeOf(SubSeq(Starts[i], 1, Len(Starts[i]) - 3))]]
         \/ /\ Len(s) < Depth + (IF s # <<>> /\ s[1] = 104 THEN 8 ELSE 0) /\ \E c \in Alpha : s' = Append(s, c) /\ m' = Scan(c)
MSpec == MInit /\ [][MNext]_vars

P == Parse(s)
ScannerAgrees == P.form => Done = P.u
\* reassembly after the library
Text(u) ==
  (IF u.host = <<>> THEN <<>>
   ELSE (IF u.scheme # Unknown THEN SchemeNames[u.scheme + 1] \o <<Colon, Slash, Slash>>
         ELSE IF u.port = <<>> /\ Uri(u) = <<>> THEN <<117,110,107,110,111,119,110, Colon, Slash, Slash>> ELSE <<>>)
        \o u.host \o (IF u.port = <<>> THEN <<>> ELSE <<Colon>> \o u.port))
  \o Uri(u)
Fixpoint == (P.form => Legal(P.u)) /\ (Legal(P.u) => LET t == Text(P.u) IN TextOk(P.u, t) /\ Text(Parse(t).u) = t)
\* nothing of the text is lost or invented
Lossless == P.form => LET u == P.u
                         n == Cardinality({i \in 1..Len(s) : TRUE}) IN
                     Len(u.host) + Len(u.path) + Len(u.query) + Len(u.frag) <= n
Emit == s # <<>> => PrintT("GEN " \o ToJson(s))

\* ------------------------------------------------------------------ the codec (s as raw bytes)
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 55 + n
RECURSIVE Encode(_, _)
Encode(x, i) == IF i > Len(x) THEN <<>>
  ELSE (IF Alnum(x[i]) \/ x[i] \in Marks THEN <<x[i]>> ELSE IF x[i] = 32 THEN <<43>> ELSE <<Pct, HexDigit(x[i] \div 16), HexDigit(x[i] % 16)>>) \o Encode(x, i + 1)
CodecOk == LET e == Encode(s, 1) IN EncText(e, 1) /\ Decode(e, 1) = s /\ DecOk(e, s) /\ \A i \in 1..Len(s) : ~DecOk(e, Append(s, 1)) /\ ~DecOk(e, SubSeq(s, 1, Len(s) - 1))
\* a decoder which leaves bad escapes alone does what is allowed
DecodeAllowed == DecOk(s, Decode(s, 1))
=============================================================================
