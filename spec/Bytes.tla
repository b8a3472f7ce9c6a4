------------------------------- MODULE Bytes -------------------------------
(* Byte sequences and fixed-width big-endian numbers.                       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Byte == 0..255
MaxLen == 2147483647

\* n-byte slice of d starting after offset p (p bytes skipped)
Slice(d, p, n) == SubSeq(d, p + 1, p + n)
Drop(d, n) == SubSeq(d, n + 1, Len(d))
Take(d, n) == SubSeq(d, 1, n)

BE16(n) == <<n \div 256, n % 256>>
\* a 32 bit length that fits TLC's integers
BE32(n) == <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
\* numbers wider than 16 bits travel as sequences of 16 bit limbs, most significant first
RECURSIVE LimbBytes(_)
LimbBytes(ls) == IF ls = <<>> THEN <<>> ELSE BE16(Head(ls)) \o LimbBytes(Tail(ls))
Limbs(d, p, w) == [i \in 1..w |-> d[p + 2*i - 1] * 256 + d[p + 2*i]]

\* value of 4 big-endian bytes, or -1 if it does not fit TLC's integers (then it exceeds any length we handle)
Num32(a, b, c, d) == IF a >= 64 THEN -1 ELSE a * 16777216 + b * 65536 + c * 256 + d

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

\* position (0 based offset) of the first occurrence of pattern w in d at or after offset p, or -1
RECURSIVE FindFrom(_, _, _)
FindFrom(d, w, p) ==
    IF p + Len(w) > Len(d) THEN -1
    ELSE IF \A i \in 1..Len(w) : d[p + i] = w[i] THEN p
    ELSE FindFrom(d, w, p + 1)
Find(d, w) == FindFrom(d, w, 0)

MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
=============================================================================
