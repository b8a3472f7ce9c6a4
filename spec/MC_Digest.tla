------------------------------ MODULE MC_Digest ------------------------------
(* The digests of Digest against what is known about them: base64 decodes to what was encoded and is *)
(* one-to-one, SHA-1 agrees with the published vectors, its padding fills whole blocks.              *)
EXTENDS Digest
CONSTANTS MaxN, Alphabet
VARIABLE m
DInit == m = <<>>
DNext == Len(m) < MaxN /\ \E b \in Alphabet : m' = Append(m, b)
DSpec == DInit /\ [][DNext]_m

Un64(c) == IF c \in 65..90 THEN c - 65 ELSE IF c \in 97..122 THEN c - 71 ELSE IF c \in 48..57 THEN c + 4 ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE 0
RECURSIVE Decode(_)
Decode(s) ==
  IF s = <<>> THEN <<>>
  ELSE LET v == [i \in 1..4 |-> Un64(s[i])]
           t == <<v[1] * 4 + v[2] \div 16, (v[2] % 16) * 16 + v[3] \div 4, (v[3] % 4) * 64 + v[4]>>
           n == IF s[3] = 61 THEN 1 ELSE IF s[4] = 61 THEN 2 ELSE 3 IN
       SubSeq(t, 1, n) \o Decode(SubSeq(s, 5, Len(s)))
RoundTrip == LET e == Base64(m) IN Decode(e) = m /\ Len(e) = 4 * ((Len(m) + 2) \div 3) /\ (m # <<>> => IsBase64(e))
PadOk == LET p == Pad(m) IN Len(p) % 64 = 0 /\ Take(p, Len(m)) = m /\ Len(p) < Len(m) + 73
A(n) == [i \in 1..n |-> 97]
\* "", "abc", the two block message of FIPS 180, RFC 6455's example
Abc == <<97, 98, 99>>
Two == [i \in 1..56 |-> 97 + ((i - 1) % 4) + ((i - 1) \div 4)]
Sample == <<100,71,104,108,73,72,78,104,98,88,66,115,90,83,66,117,98,50,53,106,90,81,61,61>>
Vectors ==
  /\ Sha1(<<>>) = <<218,57,163,238,94,107,75,13,50,85,191,239,149,96,24,144,175,216,7,9>>
  /\ Sha1(Abc) = <<169,153,62,54,71,6,129,106,186,62,37,113,120,80,194,108,156,208,216,157>>
  /\ Sha1(Two) = <<132,152,62,68,28,59,210,110,186,174,74,161,249,81,41,229,229,70,112,241>>
  /\ Accept(Sample) = <<115,51,112,80,76,77,66,105,84,120,97,81,57,107,89,71,122,122,104,90,82,98,75,43,120,79,111,61>>
ASSUME Vectors
=============================================================================
