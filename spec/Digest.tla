------------------------------- MODULE Digest -------------------------------
(* SHA-1 (FIPS 180-4) and base64 (RFC 4648) over byte sequences. A 32 bit word is a pair of 16 bit halves. *)
EXTENDS Bytes, Bitwise

Add2(x, y) == LET l == x[2] + y[2] IN <<(x[1] + y[1] + l \div 65536) % 65536, l % 65536>>
Xor2(x, y) == <<x[1] ^^ y[1], x[2] ^^ y[2]>>
And2(x, y) == <<x[1] & y[1], x[2] & y[2]>>
Not2(x) == <<65535 - x[1], 65535 - x[2]>>
Pow2 == [n \in 0..16 |-> 2^n]
RotS(x, n) == <<((x[1] * Pow2[n]) % 65536) + x[2] \div Pow2[16 - n], ((x[2] * Pow2[n]) % 65536) + x[1] \div Pow2[16 - n]>>     \* 0 < n < 16
Rot30(x) == RotS(<<x[2], x[1]>>, 14)

K(t) == IF t < 20 THEN <<23170, 31129>> ELSE IF t < 40 THEN <<28377, 60321>> ELSE IF t < 60 THEN <<36635, 48348>> ELSE <<51810, 49622>>
F(t, b, c, d) ==
  IF t < 20 THEN Xor2(And2(b, c), And2(Not2(b), d))
  ELSE IF t < 40 \/ t >= 60 THEN Xor2(b, Xor2(c, d))
  ELSE Xor2(And2(b, c), Xor2(And2(b, d), And2(c, d)))
H0 == << <<26437, 8961>>, <<61389, 43913>>, <<39098, 56574>>, <<4146, 21622>>, <<50130, 57840>> >>

RECURSIVE Sched(_)
Sched(w) == IF Len(w) = 80 THEN w
  ELSE LET t == Len(w) + 1 IN Sched(Append(w, RotS(Xor2(Xor2(w[t - 3], w[t - 8]), Xor2(w[t - 14], w[t - 16])), 1)))
RECURSIVE Rounds(_, _, _)
Rounds(v, w, t) ==
  IF t = 80 THEN v
  ELSE LET T == Add2(Add2(RotS(v[1], 5), F(t, v[2], v[3], v[4])), Add2(v[5], Add2(K(t), w[t + 1]))) IN
       Rounds(<<T, v[1], Rot30(v[2]), v[3], v[4]>>, w, t + 1)
Pad(m) == LET z == (120 - ((Len(m) + 1) % 64)) % 64
              n == Len(m) * 8 IN
          m \o <<128>> \o [i \in 1..z |-> 0] \o <<0, 0, 0, 0, n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
RECURSIVE Blocks(_, _, _)
Blocks(p, i, h) ==
  IF i >= Len(p) THEN h
  ELSE LET w == Sched([k \in 1..16 |-> <<p[i + 4*k - 3] * 256 + p[i + 4*k - 2], p[i + 4*k - 1] * 256 + p[i + 4*k]>>])
           v == Rounds(h, w, 0) IN
       Blocks(p, i + 64, [k \in 1..5 |-> Add2(h[k], v[k])])
Sha1(m) == LET h == Blocks(Pad(m), 0, H0) IN
  [i \in 1..20 |-> LET x == h[(i + 3) \div 4]
                       y == x[IF (i - 1) % 4 < 2 THEN 1 ELSE 2] IN
                   IF i % 2 = 1 THEN y \div 256 ELSE y % 256]

B64(n) == IF n < 26 THEN 65 + n ELSE IF n < 52 THEN 71 + n ELSE IF n < 62 THEN n - 4 ELSE IF n = 62 THEN 43 ELSE 47
RECURSIVE Base64(_)
Base64(m) ==
  IF m = <<>> THEN <<>>
  ELSE IF Len(m) = 1 THEN <<B64(m[1] \div 4), B64((m[1] % 4) * 16), 61, 61>>
  ELSE IF Len(m) = 2 THEN <<B64(m[1] \div 4), B64((m[1] % 4) * 16 + m[2] \div 16), B64((m[2] % 16) * 4), 61>>
  ELSE <<B64(m[1] \div 4), B64((m[1] % 4) * 16 + m[2] \div 16), B64((m[2] % 16) * 4 + m[3] \div 64), B64(m[3] % 64)>> \o Base64(SubSeq(m, 4, Len(m)))
B64Char(c) == c \in 48..57 \/ c \in 65..90 \/ c \in 97..122 \/ c \in {43, 47}
\* a non-empty, properly padded base64 text
IsBase64(s) == LET n == Len(s)
                   p == IF n > 1 /\ s[n] = 61 /\ s[n - 1] = 61 THEN 2 ELSE IF n > 0 /\ s[n] = 61 THEN 1 ELSE 0 IN
  n > 0 /\ n % 4 = 0 /\ \A i \in 1..n - p : B64Char(s[i])

Guid == <<50,53,56,69,65,70,65,53,45,69,57,49,52,45,52,55,68,65,45,57,53,67,65,45,67,53,65,66,48,68,67,56,53,66,49,49>>
Accept(key) == Base64(Sha1(key \o Guid))
=============================================================================
