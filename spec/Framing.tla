------------------------------ MODULE Framing ------------------------------
(* Message framing over a byte stream: packets (32 bit length prefix) and RFC 6455 frames. *)
(*                                                                                         *)
(* A transport direction is a sequence of tokens: bytes 0..255 and the outcomes below.     *)
(* How bytes are grouped into reads is not part of the state: segmentation must not matter.*)
EXTENDS Bytes, Bitwise

WB == 256     \* one read finds nothing (non-blocking socket)
TO == 257     \* one read times out
EOS == 258    \* end of stream (persists)
ERR == 259    \* transport error (persists)

\* status codes of the public API
Success == 1   Disconnected == 4   Error == 5   WouldBlock == 6   TooBig == 10   Timeout == 21
Failure(st) == st \notin {Success, WouldBlock, Timeout}

(* The input of a transport: its tokens, the positions of the outcomes among them, and a cursor  *)
(* [p, j]: p tokens consumed, j of them outcomes.                                               *)
Marks(inp) == SelectSeq([i \in 1..Len(inp) |-> i], LAMBDA i : inp[i] >= 256)
St(in, o) == [inp |-> in, mk |-> Marks(in), c |-> [p |-> 0, j |-> 0], out |-> o, lim |-> 0, keys |-> {}, run |-> <<>>, dead |-> FALSE]

(* ReadExact(s, c, n, begun): the contract of reading exactly n bytes from cursor c on as (part of) a message *)
(* of which some bytes were already consumed iff begun. Result: [ok, d, c] or [ok, why, begun, c].  *)
RECURSIVE ReadExactFrom(_, _, _, _, _)
ReadExactFrom(s, c, n, begun, acc) ==
  LET have == (IF c.j < Len(s.mk) THEN s.mk[c.j + 1] - 1 ELSE Len(s.inp)) - c.p     \* plain bytes before the next outcome
      run == MinI(have, n)
      acc2 == IF run = 0 THEN acc ELSE acc \o SubSeq(s.inp, c.p + 1, c.p + run)
      c2 == [p |-> c.p + run, j |-> c.j]
      b2 == begun \/ run > 0
  IN IF run = n THEN [ok |-> TRUE, d |-> acc2, c |-> c2]
     ELSE IF c2.p >= Len(s.inp) THEN [ok |-> FALSE, why |-> EOS, begun |-> b2, c |-> c2]
     ELSE LET x == s.inp[c2.p + 1]
              c3 == [p |-> c2.p + 1, j |-> c.j + 1]
          IN IF x = WB /\ b2 THEN ReadExactFrom(s, c3, n - run, TRUE, acc2)      \* waited out
             ELSE [ok |-> FALSE, why |-> x, begun |-> b2, c |-> IF x \in {WB, TO} THEN c3 ELSE c2]
ReadExact(s, c, n, begun) == ReadExactFrom(s, c, n, begun, <<>>)

\* the statuses allowed for an unsuccessful read
StatusFor(r) == IF r.begun THEN {st \in 0..21 : Failure(st)}
                ELSE CASE r.why = WB -> {WouldBlock} [] r.why = TO -> {Timeout} [] OTHER -> {st \in 0..21 : Failure(st)}

(* The write side: out is a sequence of tokens n < 1000000 (accept up to n bytes) and outcomes *)
(* 1000000 + x; exhausted means everything is accepted. Writing the bytes m: [ok, n accepted, rest]. *)
OUT(x) == 1000000 + x
RECURSIVE WriteAll(_, _, _)
WriteAll(out, n, got) ==
  IF got = n THEN [ok |-> TRUE, n |-> got, rest |-> out]
  ELSE IF out = <<>> THEN [ok |-> TRUE, n |-> n, rest |-> out]
  ELSE IF Head(out) < 1000000 THEN WriteAll(Tail(out), n, got + MinI(Head(out), n - got))
  ELSE IF Head(out) = OUT(WB) THEN WriteAll(Tail(out), n, got)
  ELSE [ok |-> FALSE, n |-> got, rest |-> out]

(* ---- state ------------------------------------------------------------------------------- *)
\* inp, out: what the transport will do; lim: receive limit as a number (0 none); keys: mask keys used so far, run: the last two of them
Init(e) == {St(e.inp, e.out)}

Exceeds(lim, n) == lim > 0 /\ (n < 0 \/ n > lim)      \* n = -1: beyond TLC's integers

(* ---- packets --------------------------------------------------------------------------- *)
PacketWire(body) == BE32(Len(body)) \o body

\* result of receiving one packet: status set, and when successful the body
PRecv(s) ==
  LET h == ReadExact(s, s.c, 4, FALSE) IN
  IF ~h.ok THEN [ok |-> FALSE, sts |-> StatusFor(h), c |-> h.c]
  ELSE LET n == Num32(h.d[1], h.d[2], h.d[3], h.d[4]) IN
       IF Exceeds(s.lim, n) THEN [ok |-> FALSE, sts |-> {TooBig}, c |-> h.c]
       ELSE IF n < 0 THEN [ok |-> FALSE, sts |-> {st \in 0..21 : Failure(st)}, c |-> h.c]
       ELSE LET b == ReadExact(s, h.c, n, TRUE) IN
            IF b.ok THEN [ok |-> TRUE, body |-> b.d, c |-> b.c]
            ELSE [ok |-> FALSE, sts |-> StatusFor(b), c |-> b.c]

\* bytes (not outcome tokens) between the state's cursor and c
NBytes(s, c) == (c.p - s.c.p) - (c.j - s.c.j)

After(s, c, fatal) == [s EXCEPT !.c = c, !.dead = fatal]

StepPRecv(s, e) ==
  LET r == PRecv(s) IN
  IF r.ok THEN IF e.st = Success /\ e.v = r.body /\ e.cur = 0 /\ e.size = Len(r.body) /\ e.rd = NBytes(s, r.c)
               THEN {After(s, r.c, FALSE)} ELSE {}
  ELSE IF e.st \in r.sts /\ (e.st \in {WouldBlock, Timeout} => e.rd = 0)
          /\ (e.st = TooBig => e.rd = 4 /\ e.am <= 65536)
       THEN {After(s, r.c, Failure(e.st))} ELSE {}

StepExact(s, e) ==
  LET r == ReadExact(s, s.c, e.n, FALSE) IN
  IF r.ok THEN IF e.st = Success /\ e.v = r.d /\ e.rd = e.n THEN {After(s, r.c, FALSE)} ELSE {}
  ELSE IF e.st \in StatusFor(r) /\ (e.st \in {WouldBlock, Timeout} => e.rd = 0) THEN {After(s, r.c, Failure(e.st))} ELSE {}

\* sending the bytes m: success iff everything was accepted, and what was accepted is a prefix of m
SendOk(s, e, m) ==
  LET w == WriteAll(s.out, Len(m), 0) IN
  /\ e.w = Take(m, w.n)
  /\ (e.st = Success) = w.ok

StepPSend(s, e) ==
  LET m == PacketWire(e.body)
      w == WriteAll(s.out, Len(m), 0) IN
  IF SendOk(s, e, m) /\ e.cur = e.cur0 /\ e.size = Len(e.body) /\ e.same
  THEN {[s EXCEPT !.out = w.rest, !.dead = ~w.ok]} ELSE {}

(* ---- RFC 6455 frames --------------------------------------------------------------------- *)
XorMask(d, key) == [i \in 1..Len(d) |-> d[i] ^^ key[((i - 1) % 4) + 1]]
MaskBit(role) == IF role = "client" THEN 128 ELSE 0
LenForm(n) == IF n <= 125 THEN <<n>> ELSE IF n <= 65535 THEN <<126>> \o BE16(n) ELSE <<127, 0, 0, 0, 0>> \o BE32(n)
FrameHead(fin, op, role, n) ==
  LET lf == LenForm(n) IN <<(IF fin THEN 128 ELSE 0) + op, MaskBit(role) + lf[1]>> \o Tail(lf)
FrameWire(fin, op, role, payload, key) ==
  FrameHead(fin, op, role, Len(payload)) \o (IF role = "client" THEN key \o XorMask(payload, key) ELSE payload)

\* the mask key of a (possibly incomplete) recorded client frame, if it got that far
KeyOf(w, n) == LET h == Len(FrameHead(TRUE, 0, "client", n)) IN IF Len(w) >= h + 4 THEN Slice(w, h, 4) ELSE <<>>

\* a key which goes on from the two before it by their step, in either byte order, could have been foretold (RFC 6455, 5.3)
KeyNum(k, o) == <<k[o[1]] * 256 + k[o[2]], k[o[3]] * 256 + k[o[4]]>>
KeyStep(a, b) == LET lo == a[2] - b[2]
               IN <<(a[1] - b[1] - (IF lo < 0 THEN 1 ELSE 0) + 131072) % 65536, (lo + 65536) % 65536>>
Foretold(run, key) ==
  Len(run) = 2 /\ \E o \in {<<1, 2, 3, 4>>, <<4, 3, 2, 1>>} :
    KeyStep(KeyNum(key, o), KeyNum(run[2], o)) = KeyStep(KeyNum(run[2], o), KeyNum(run[1], o))

StepFSend(s, e) ==
  LET n == Len(e.body)
      key == IF e.role = "client" THEN KeyOf(e.w, n) ELSE <<>>
      full == FrameWire(e.fin, e.op, e.role, e.body, IF key = <<>> THEN <<0, 0, 0, 0>> ELSE key)
      w == WriteAll(s.out, Len(full), 0)
      cmp == IF e.role = "client" /\ key = <<>> THEN Len(FrameHead(e.fin, e.op, e.role, n)) ELSE Len(full)
  IN IF /\ Len(e.w) = w.n /\ Take(e.w, MinI(cmp, w.n)) = Take(full, MinI(cmp, w.n))
        /\ (e.st = Success) = w.ok
        /\ key = <<>> \/ (key \notin s.keys /\ ~Foretold(s.run, key))      \* a fresh, unpredictable key for every frame
        /\ e.body2 = e.body /\ e.op2 = e.op /\ e.fin2 = e.fin   \* the frame object is not altered
     THEN {[s EXCEPT !.out = w.rest, !.dead = ~w.ok, !.keys = IF key = <<>> THEN @ ELSE @ \cup {key},
                     !.run = IF key = <<>> THEN @ ELSE IF Len(@) < 2 THEN Append(@, key) ELSE <<@[2], key>>]}
     ELSE {}

AnyFail == {st \in 0..21 : Failure(st)}
\* minimal length form? otherwise the frame is malformed and may be refused or accepted
FRecv(s, role) ==
  LET h == ReadExact(s, s.c, 2, FALSE) IN
  IF ~h.ok THEN [ok |-> FALSE, sts |-> StatusFor(h), c |-> h.c, opt |-> FALSE]
  ELSE
  LET masked == h.d[2] >= 128
      l7 == h.d[2] % 128
      ext == IF l7 = 126 THEN 2 ELSE IF l7 = 127 THEN 8 ELSE 0
      x == ReadExact(s, h.c, ext, TRUE)
  IN
  IF masked = (role = "client") THEN [ok |-> FALSE, sts |-> AnyFail, c |-> h.c, opt |-> FALSE]
  ELSE IF ~x.ok THEN [ok |-> FALSE, sts |-> StatusFor(x), c |-> x.c, opt |-> FALSE]
  ELSE
  LET n == IF ext = 0 THEN l7 ELSE IF ext = 2 THEN x.d[1] * 256 + x.d[2]
           ELSE IF x.d[1] + x.d[2] + x.d[3] + x.d[4] > 0 THEN -1 ELSE Num32(x.d[5], x.d[6], x.d[7], x.d[8])
      minimal == (ext = 0) \/ (ext = 2 /\ n > 125) \/ (ext = 8 /\ (n < 0 \/ n > 65535))
  IN
  IF Exceeds(s.lim, n) THEN [ok |-> FALSE, sts |-> IF minimal THEN {TooBig} ELSE AnyFail, c |-> x.c, opt |-> FALSE]
  ELSE IF n < 0 THEN [ok |-> FALSE, sts |-> AnyFail, c |-> x.c, opt |-> FALSE]
  ELSE
  LET k == ReadExact(s, x.c, IF masked THEN 4 ELSE 0, TRUE) IN
  IF ~k.ok THEN [ok |-> FALSE, sts |-> StatusFor(k), c |-> k.c, opt |-> FALSE]
  ELSE
  LET b == ReadExact(s, k.c, n, TRUE) IN
  IF ~b.ok THEN [ok |-> FALSE, sts |-> StatusFor(b), c |-> b.c, opt |-> FALSE]
  ELSE [ok |-> TRUE, fin |-> h.d[1] >= 128, op |-> h.d[1] % 16,
        body |-> IF masked THEN XorMask(b.d, k.d) ELSE b.d, c |-> b.c,
        opt |-> ~minimal \/ (h.d[1] % 128) >= 16]      \* opt: refusing is allowed too

StepFRecv(s, e) ==
  LET r == FRecv(s, e.role) IN
  (IF r.ok /\ e.st = Success /\ e.body = r.body /\ e.fin = r.fin /\ e.op = r.op /\ e.rd = NBytes(s, r.c)
   THEN {After(s, r.c, FALSE)} ELSE {})
  \cup
  (IF r.ok /\ r.opt /\ Failure(e.st) THEN {After(s, r.c, TRUE)} ELSE {})
  \cup
  (IF ~r.ok /\ e.st \in r.sts /\ (e.st \in {WouldBlock, Timeout} => e.rd = 0)
      /\ (e.st = TooBig => e.rd <= 14 /\ e.am <= 65536)
   THEN {After(s, r.c, Failure(e.st))} ELSE {})

(* ---- the transition relation ------------------------------------------------------------- *)
Step(s, e) ==
  IF s.dead THEN {}
  ELSE CASE e.e = "PRecv" -> StepPRecv(s, e)
         [] e.e = "Exact" -> StepExact(s, e)
         [] e.e = "PSend" -> StepPSend(s, e)
         [] e.e = "FSend" -> StepFSend(s, e)
         [] e.e = "FRecv" -> StepFRecv(s, e)
         [] e.e = "Limit" -> IF e.got = e.n THEN {[s EXCEPT !.lim = e.v]} ELSE {}
         [] OTHER -> {}
=============================================================================
