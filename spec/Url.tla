-------------------------------- MODULE Url --------------------------------
(* URLs as the unique decomposition of a text at its delimiters, reassembly, and percent-encoding. *)
EXTENDS Bytes, IOUtils

Prop == IF "PROP" \in DOMAIN IOEnv THEN IOEnv.PROP ELSE ""

\* ------------------------------------------------------------------ text
Lower(s) == [i \in 1..Len(s) |-> IF s[i] \in 65..90 THEN s[i] + 32 ELSE s[i]]
\* first position of a member of C in s[from..], or Len(s) + 1
At(s, C, from) == LET S == {i \in from..Len(s) : s[i] \in C} IN IF S = {} THEN Len(s) + 1 ELSE CHOOSE i \in S : \A j \in S : i <= j
Colon == 58
Slash == 47
Quest == 63
Hash == 35

\* ------------------------------------------------------------------ schemes (numbered as in URL::Scheme)
SchemeNames == << <<104,116,116,112>>, <<104,116,116,112,115>>, <<102,116,112>>, <<109,97,105,108,116,111>>, <<105,114,99>>, <<115,102,116,112>> >>
Unknown == 6
SchemeOf(t) == LET S == {k \in 1..6 : SchemeNames[k] = Lower(t)} IN IF S = {} THEN Unknown ELSE (CHOOSE k \in S : TRUE) - 1
DefPort(sc) == CASE sc = 0 -> <<56,48>> [] sc = 1 -> <<52,52,51>> [] sc = 2 -> <<50,49>> [] sc = 4 -> <<54,54,57,55>> [] sc = 5 -> <<50,50>> [] OTHER -> <<>>
WithPort(u) == IF u.port = <<>> THEN [u EXCEPT !.port = DefPort(u.scheme)] ELSE u

\* ------------------------------------------------------------------ decomposition
Blank == [scheme |-> Unknown, host |-> <<>>, port |-> <<>>, path |-> <<>>, query |-> <<>>, frag |-> <<>>]
\* where "://" ends the scheme, or 0
SchemeEnd(s) == LET i == At(s, {Colon, Slash, Quest, Hash}, 1) IN
  IF i + 2 <= Len(s) /\ s[i] = Colon /\ s[i + 1] = Slash /\ s[i + 2] = Slash THEN i ELSE 0
Parse(s) ==
  LET c == SchemeEnd(s)
      a == IF c = 0 THEN 1 ELSE c + 3                           \* the authority begins
      e == At(s, {Slash, Quest, Hash}, a)                       \* and ends before e
      br == IF a < e /\ s[a] = 91 THEN At(s, {93}, a) ELSE a
      p == IF br > Len(s) THEN Len(s) + 1 ELSE At(s, {Colon}, br)
      haspt == p < e
      lone == c = 0 /\ e > Len(s) /\ ~haspt
      f == At(s, {Hash}, e)
      q == MinI(At(s, {Quest}, e), f)
      host == SubSeq(s, a, (IF haspt THEN p ELSE e) - 1) IN
  [form |-> ~lone /\ host # <<>> /\ (c # 1)
            \* the text has the form the library documents
            /\ (\A i \in 1..Len(host) : host[i] \notin {91, 93, 64, Colon} \/ (host[1] = 91 /\ host[Len(host)] = 93))
            /\ (haspt => \A i \in p + 1..e - 1 : s[i] \in 48..57),
   u |-> IF lone THEN Blank
         ELSE WithPort([scheme |-> IF c = 0 THEN Unknown ELSE SchemeOf(SubSeq(s, 1, c - 1)),
                        host |-> host,
                        port |-> IF haspt THEN SubSeq(s, p + 1, e - 1) ELSE <<>>,
                        path |-> SubSeq(s, e, q - 1),
                        query |-> SubSeq(s, q + 1, f - 1),
                        frag |-> SubSeq(s, f + 1, Len(s))])]

\* ------------------------------------------------------------------ reassembly
Uri(u) == u.path \o (IF u.query = <<>> THEN <<>> ELSE <<Quest>> \o u.query) \o (IF u.frag = <<>> THEN <<>> ELSE <<Hash>> \o u.frag)
\* u could have been written as a URL
Legal(u) ==
  /\ u.host # <<>> /\ (\A i \in 1..Len(u.host) : u.host[i] \notin {Colon, Slash, Quest, Hash, 91, 93, 64} \/ (u.host[1] = 91 /\ u.host[Len(u.host)] = 93 /\ u.host[i] \notin {Slash, Quest, Hash}))
  /\ \A i \in 1..Len(u.port) : u.port[i] \in 48..57
  /\ u.path = <<>> \/ u.path[1] = Slash
  /\ \A i \in 1..Len(u.path) : u.path[i] \notin {Quest, Hash}
  /\ \A i \in 1..Len(u.query) : u.query[i] # Hash
  /\ u.scheme \in 0..Unknown
\* a text for u: what it means is u again (with the default port if it had none)
TextOk(u, t) == Legal(u) => LET p == Parse(t) IN p.form /\ p.u = WithPort(u)

\* ------------------------------------------------------------------ percent-encoding
Alnum(c) == c \in 48..57 \/ c \in 65..90 \/ c \in 97..122
Marks == {45, 95, 46, 33, 126, 42, 39, 40, 41}
Hex(c) == c \in 48..57 \/ c \in 65..70 \/ c \in 97..102
HexV(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE c - 87
Pct == 37
Escape(s, i) == i + 2 <= Len(s) /\ s[i] = Pct /\ Hex(s[i + 1]) /\ Hex(s[i + 2])
\* the encoded alphabet
RECURSIVE EncText(_, _)
EncText(s, i) ==
  IF i > Len(s) THEN TRUE
  ELSE IF Alnum(s[i]) \/ s[i] \in Marks \/ s[i] = 43 THEN EncText(s, i + 1)
  ELSE Escape(s, i) /\ (s[i + 1] # 50 \/ s[i + 2] # 48) /\ EncText(s, i + 3)     \* a space is '+'
\* the ends in out of what s[1..] may decode to, walking s one item at a time; bad escapes may give anything short
RECURSIVE DecEnds(_, _, _, _)
DecEnds(s, out, i, E) ==      \* E: positions in out reached when s[1..i-1] has been decoded
  IF E = {} \/ i > Len(s) THEN {j \in E : j = Len(out)} # {} /\ i > Len(s)
  ELSE IF Escape(s, i) THEN DecEnds(s, out, i + 3, {j + 1 : j \in {k \in E : k < Len(out) /\ out[k + 1] = 16 * HexV(s[i + 1]) + HexV(s[i + 2])}})
  ELSE IF s[i] # Pct THEN DecEnds(s, out, i + 1, {j + 1 : j \in {k \in E : k < Len(out) /\ out[k + 1] = (IF s[i] = 43 THEN 32 ELSE s[i])}})
  ELSE LET far == MinI(i + 2, Len(s))
           lens == {n \in 1..3 : i + n - 1 <= far /\ \A m \in i + 1..i + n - 1 : ~Escape(s, m)}
       IN \E n \in lens : DecEnds(s, out, i + n, {j \in 0..Len(out) : \E k \in E : j >= k /\ j <= k + 3})
DecOk(s, out) == DecEnds(s, out, 1, {0})

\* the unique decoding of a text without bad escapes
RECURSIVE Decode(_, _)
Decode(s, i) == IF i > Len(s) THEN <<>>
  ELSE IF Escape(s, i) THEN <<16 * HexV(s[i + 1]) + HexV(s[i + 2])>> \o Decode(s, i + 3)
  ELSE <<IF s[i] = 43 THEN 32 ELSE s[i]>> \o Decode(s, i + 1)

\* ------------------------------------------------------------------ transitions: the object's parts
Init(e) == {[u |-> Blank]}
Split24 == Prop \in {"", "ALL", "C24"}
Whole25 == Prop \in {"", "ALL", "C25"}
LookOk(u, e) ==
  Whole25 /\ u.host # <<>> =>
    /\ ~e.thrown /\ e.ne
    /\ e.uri = Uri(u)
    /\ Legal(u) =>
         /\ TextOk(u, e.url)
         /\ e.back = WithPort(u)
         /\ e.equal = (u = WithPort(u))
         /\ e.again = e.url \/ u # WithPort(u)
StepParse(s, e) ==
  LET p == Parse(e.in) IN
  IF e.same = TRUE /\ (Split24 /\ p.form => e.u = p.u) /\ LookOk(e.u, e) /\ (p.form /\ Whole25 => Legal(e.u)) THEN {[s EXCEPT !.u = e.u]} ELSE {}
SetPart(u, f, v) == CASE f = "host" -> [u EXCEPT !.host = v] [] f = "port" -> [u EXCEPT !.port = v] [] f = "path" -> [u EXCEPT !.path = v]
                      [] f = "query" -> [u EXCEPT !.query = v] [] OTHER -> [u EXCEPT !.frag = v]
Step(s, e) ==
  CASE e.e = "New" -> {[s EXCEPT !.u = Blank]}
    [] e.e = "Parse" -> StepParse(s, e)
    [] e.e = "SetS" -> {[s EXCEPT !.u.scheme = e.v]}
    [] e.e = "Set" -> {[s EXCEPT !.u = SetPart(@, e.f, e.v)]}
    [] e.e = "Look" -> IF e.u = s.u /\ LookOk(e.u, e) THEN {s} ELSE {}
    [] e.e = "SchemeText" -> IF ~e.thrown /\ (e.v < Unknown => Lower(e.t) = SchemeNames[e.v + 1]) /\ e.back = e.v THEN {s} ELSE {}
    [] e.e = "SchemeName" -> IF e.v = SchemeOf(e.t) THEN {s} ELSE {}
    [] e.e = "Enc" -> IF ~e.thrown /\ EncText(e.out, 1) /\ Decode(e.out, 1) = e.in /\ e.dec = e.in THEN {s} ELSE {}
    [] e.e = "Dec" -> IF ~e.thrown /\ DecOk(e.in, e.out) THEN {s} ELSE {}
    [] OTHER -> {}
=============================================================================
