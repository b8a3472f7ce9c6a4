------------------------------ MODULE Packet -------------------------------
(* The packet: an append-only byte buffer with a read cursor.               *)
(*                                                                          *)
(* State  s = [data |-> bytes written, cur |-> read position]               *)
(* Step(s, e) is the set of states allowed after the recorded call e.       *)
EXTENDS Bytes

(* ---- the supported types -------------------------------------------- *)
\* n: fixed width number of w 16-bit limbs;  enum: 32 bits on the wire whatever the underlying type
Ty(n) ==
  CASE n = "bool" -> [k |-> "bool"]
    [] n = "u8"   -> [k |-> "u8"]
    [] n \in {"u16", "i16"} -> [k |-> "n", w |-> 1]
    [] n \in {"u32", "i32", "f32"} -> [k |-> "n", w |-> 2]
    [] n \in {"u64", "i64", "f64"} -> [k |-> "n", w |-> 4]
    [] n = "e8"   -> [k |-> "enum", u |-> "u8"]
    [] n = "e16s" -> [k |-> "enum", u |-> "i16"]
    [] n \in {"e32", "e32s"} -> [k |-> "enum", u |-> "32"]
    [] n \in {"str", "cstr", "sv"} -> [k |-> "str"]
    [] OTHER -> [k |-> "none"]

RECURSIVE TyOf(_)
TyOf(t) ==   \* t: type name (a string) or <<constructor, args...>>
  IF Len(t) = 1 THEN Ty(t[1])
  ELSE CASE t[1] = "vec"  -> [k |-> "seq", of |-> TyOf(t[2])]
         [] t[1] = "map"  -> [k |-> "map", kt |-> TyOf(t[2]), vt |-> TyOf(t[3])]
         [] t[1] = "pair" -> [k |-> "tup", ts |-> <<TyOf(t[2]), TyOf(t[3])>>]
         [] t[1] = "obj"  -> [k |-> "tup", ts |-> [i \in 1..(Len(t) - 1) |-> TyOf(t[i + 1])]]
         [] OTHER -> [k |-> "none"]

(* ---- encoding: the set of allowed wire forms (maps have no promised order) *)
Perms(n) == {f \in [1..n -> 1..n] : \A i, j \in 1..n : f[i] = f[j] => i = j}
CrossCat(A, B) == {a \o b : a \in A, b \in B}

RECURSIVE Enc(_, _)
RECURSIVE EncAll(_, _, _)
EncAll(ts, vs, i) == IF i > Len(vs) THEN {<<>>} ELSE CrossCat(Enc(ts[i], vs[i]), EncAll(ts, vs, i + 1))
RECURSIVE EncElems(_, _, _)
EncElems(t, vs, i) == IF i > Len(vs) THEN {<<>>} ELSE CrossCat(Enc(t, vs[i]), EncElems(t, vs, i + 1))

Enc(t, v) ==
  CASE t.k = "bool" -> {<<v>>}
    [] t.k = "u8"   -> {<<v>>}
    [] t.k = "n"    -> {LimbBytes(v)}
    [] t.k = "enum" -> {LimbBytes(v)}
    [] t.k = "str"  -> {BE32(Len(v)) \o v}
    [] t.k = "seq"  -> CrossCat({BE32(Len(v))}, EncElems(t.of, v, 1))
    [] t.k = "tup"  -> EncAll(t.ts, v, 1)
    [] t.k = "map"  -> LET pt == [k |-> "tup", ts |-> <<t.kt, t.vt>>] IN
                       UNION {CrossCat({BE32(Len(v))}, EncElems(pt, [i \in 1..Len(v) |-> v[f[i]]], 1)) : f \in Perms(Len(v))}
    [] OTHER -> {}

(* ---- decoding: [ok, v, p] ---------------------------------------------- *)
Bad == [ok |-> FALSE]
Ok(v, p) == [ok |-> TRUE, v |-> v, p |-> p]
Count(d, p) == Num32(d[p+1], d[p+2], d[p+3], d[p+4])

RECURSIVE Dec(_, _, _)
RECURSIVE DecElems(_, _, _, _, _)
DecElems(t, n, d, p, acc) ==
  IF n = 0 THEN Ok(acc, p)
  ELSE LET r == Dec(t, d, p) IN IF r.ok THEN DecElems(t, n - 1, d, r.p, Append(acc, r.v)) ELSE Bad
RECURSIVE DecAll(_, _, _, _, _)
DecAll(ts, i, d, p, acc) ==
  IF i > Len(ts) THEN Ok(acc, p)
  ELSE LET r == Dec(ts[i], d, p) IN IF r.ok THEN DecAll(ts, i + 1, d, r.p, Append(acc, r.v)) ELSE Bad

Dec(t, d, p) ==
  LET left == Len(d) - p IN
  CASE t.k = "bool" -> IF left < 1 THEN Bad ELSE Ok(IF d[p+1] = 0 THEN 0 ELSE 1, p + 1)
    [] t.k = "u8"   -> IF left < 1 THEN Bad ELSE Ok(d[p+1], p + 1)
    [] t.k = "n"    -> IF left < 2 * t.w THEN Bad ELSE Ok(Limbs(d, p, t.w), p + 2 * t.w)
    [] t.k = "enum" -> IF left < 4 THEN Bad ELSE Ok(Limbs(d, p, 2), p + 4)
    [] t.k = "str"  -> IF left < 4 THEN Bad
                       ELSE LET n == Count(d, p) IN
                            IF n < 0 \/ n > left - 4 THEN Bad ELSE Ok(Slice(d, p + 4, n), p + 4 + n)
    [] t.k = "seq"  -> IF left < 4 THEN Bad
                       ELSE LET n == Count(d, p) IN
                            IF n < 0 \/ n > left - 4 THEN Bad ELSE DecElems(t.of, n, d, p + 4, <<>>)
    [] t.k = "tup"  -> DecAll(t.ts, 1, d, p, <<>>)
    [] t.k = "map"  -> IF left < 4 THEN Bad
                       ELSE LET n == Count(d, p) IN
                            IF n < 0 \/ n > left - 4 THEN Bad
                            ELSE DecElems([k |-> "tup", ts |-> <<t.kt, t.vt>>], n, d, p + 4, <<>>)
    [] OTHER -> Bad

\* does the observed value v agree with the decoded one w?
EnumFits(u, w) == CASE u = "u8"  -> w[1] = 0 /\ w[2] < 256
                    [] u = "i16" -> (w[1] = 0 /\ w[2] < 32768) \/ (w[1] = 65535 /\ w[2] >= 32768)
                    [] OTHER -> TRUE
RECURSIVE Same(_, _, _)
Same(t, w, v) ==
  CASE t.k = "enum" -> IF EnumFits(t.u, w) THEN v = w ELSE TRUE   \* a number outside the enum has no promised image
    [] t.k = "seq"  -> Len(v) = Len(w) /\ \A i \in 1..Len(w) : Same(t.of, w[i], v[i])
    [] t.k = "tup"  -> Len(v) = Len(w) /\ \A i \in 1..Len(w) : Same(t.ts[i], w[i], v[i])
    [] t.k = "map"  -> /\ \A i \in 1..Len(w) : \E j \in 1..Len(v) : Same(t.kt, w[i][1], v[j][1])
                       /\ \A j \in 1..Len(v) : \E i \in 1..Len(w) : Same(t.kt, w[i][1], v[j][1]) /\ Same(t.vt, w[i][2], v[j][2])
                       /\ \A i, j \in 1..Len(v) : v[i][1] = v[j][1] => i = j
    [] OTHER -> v = w

(* ---- the transition relation ------------------------------------------- *)
Fresh == [data |-> <<>>, cur |-> 0]
Init(e) == {Fresh}

\* what every call reports about the packet afterwards
Reports(s, e) == e.cur = s.cur /\ e.size = Len(s.data) /\ e.rem = Len(s.data) - s.cur
Frugal(s, e) == e.am <= 64 * Len(s.data) + 65536     \* largest single allocation made by the call

Wr(s, e) == LET t == TyOf(e.t) IN {[s EXCEPT !.data = @ \o b] : b \in Enc(t, e.v)}
Rd(s, e) ==
  LET r == Dec(TyOf(e.t), s.data, s.cur) IN
  IF r.ok THEN IF e.ok /\ Same(TyOf(e.t), r.v, e.v) /\ Frugal(s, e) THEN {[s EXCEPT !.cur = r.p]} ELSE {}
  ELSE IF ~e.ok /\ e.x = "out_of_range" /\ Frugal(s, e) /\ e.cur \in 0..Len(s.data)
       THEN {[s EXCEPT !.cur = e.cur]} ELSE {}     \* how far a failed read got is not promised

\* seek targets are given as clamped integers: "big" marks magnitudes beyond TLC's integers
SetCur(s, n, big) == [s EXCEPT !.cur = IF big THEN Len(s.data) ELSE MinI(n, Len(s.data))]
Seek(s, n, big) == [s EXCEPT !.cur = IF big = 1 THEN Len(s.data) ELSE IF big = -1 THEN 0
                                     ELSE MaxI(0, MinI(s.cur + n, Len(s.data)))]

Step(s, e) ==
  LET next ==
    CASE e.e = "W" -> Wr(s, e)
      [] e.e = "R" -> Rd(s, e)
      [] e.e = "RawW" -> {[s EXCEPT !.data = @ \o e.v]}
      [] e.e = "RawR" -> IF ~e.big /\ e.n <= Len(s.data) - s.cur
                         THEN IF e.ok /\ e.v = Slice(s.data, s.cur, e.n) THEN {[s EXCEPT !.cur = @ + e.n]} ELSE {}
                         ELSE IF ~e.ok /\ e.x = "out_of_range" THEN {s} ELSE {}
      [] e.e = "Need" -> IF e.ok = (~e.big /\ e.n <= Len(s.data) - s.cur) /\ (~e.ok => e.x = "out_of_range") THEN {s} ELSE {}
      [] e.e = "SetCur" -> {SetCur(s, e.n, e.big)}
      [] e.e = "Seek" -> {Seek(s, e.n, e.dir)}
      [] e.e = "Clear" -> {Fresh}
      [] e.e = "New" -> {Fresh}
      [] e.e = "SetBuf" -> {[data |-> e.v, cur |-> 0]}
      [] e.e = "Reserve" -> {s}
      [] e.e = "Dump" -> IF e.v = BE32(Len(s.data)) \o s.data THEN {s} ELSE {}
      [] OTHER -> {}
  IN {n \in next : Reports(n, e)}
=============================================================================
