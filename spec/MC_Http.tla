------------------------------ MODULE MC_Http -------------------------------
(* The incremental parser as a machine (buffer, header flag, decoded prefix), fed pieces of    *)
(* every size, against the meaning of the whole prefix in Http; and the enumeration of inputs. *)
EXTENDS Http, Json
CONSTANTS Mode,        \* "chunk": a chunked body; "head": the end of the header; "len": announced length; "args": a query
          Depth, MaxPiece, HLim, BLim
VARIABLES began, sent,        \* everything fed after the fixed prefix
          buf, ended, off, last, st
vars == <<began, sent, buf, ended, off, last, st>>

cHead == <<72,84,84,80,47,49,46,49,32,50,48,48,13,10>> \o <<116,114,97,110,115,102,101,114,45,101,110,99,111,100,105,110,103,58,99,104,117,110,107,101,100,13,10,13,10>>
lHead == <<72,84,84,80,47,49,46,49,32,50,48,48,10>> \o nCL \o <<58>>
gHead == <<71,69,84,32,47,32>> \o V11
Kind == IF Mode = "head" THEN "req" ELSE "resp"
Fixed == CASE Mode = "chunk" -> cHead [] Mode = "head" -> gHead [] OTHER -> lHead
Alpha == CASE Mode = "chunk" -> {48, 49, 51, 59, CR, LF}            \* 0 1 3 ; CR LF
           [] Mode = "head" -> {CR, LF, 97, 58}
           [] OTHER -> {48, 50, 51, LF, 97}

MInit == began = FALSE /\ sent = <<>> /\ buf = <<>> /\ ended = FALSE /\ off = 0 /\ last = FALSE /\ st = sNed

\* --- the design: what one call of parse does to (buf, ended, off, last); written after the implementation
R(s, b, en, o, la) == [st |-> s, buf |-> b, ended |-> en, off |-> o, last |-> la]
RECURSIVE Chunks(_, _, _)
Chunks(b, o, la) ==
  LET q == FindFrom(b, <<CR, LF>>, o) IN
  IF q = -1 THEN R(IF Len(b) - o > HLim THEN sParse ELSE sNed, b, TRUE, o, la)
  ELSE IF la THEN IF q = o THEN R(sOk, SubSeq(b, 1, o), TRUE, o, la)
                  ELSE Chunks(SubSeq(b, 1, o) \o SubSeq(b, q + 3, Len(b)), o, la)
  ELSE LET h == HexPre(b, o + 1)
           le == MinI(h, q)
           e == TrimL(SubSeq(b, le + 1, q), {SP, 9})
           v == HexNum(SubSeq(b, o + 1, le), 1, 0) IN
       IF le = o \/ (e # <<>> /\ e[1] # 59) THEN R(sParse, b, TRUE, o, la)
       ELSE IF v > BLim - o THEN R(sBBig, b, TRUE, o, la)
       ELSE IF v = 0 THEN Chunks(SubSeq(b, 1, o) \o SubSeq(b, q + 3, Len(b)), o, TRUE)
       ELSE IF Len(b) - q < v + 4 THEN R(sNed, b, TRUE, o, la)
       ELSE IF SubSeq(b, q + 3 + v, q + 4 + v) # <<CR, LF>> THEN R(sParse, b, TRUE, o, la)
       ELSE Chunks(SubSeq(b, 1, o) \o SubSeq(b, q + 3, q + 2 + v) \o SubSeq(b, q + 5 + v, Len(b)), o + v, la)
Feed(p, all) ==
  LET b0 == buf \o p
      e == HdrEnd(b0) IN
  IF ~ended /\ ~e.found THEN R(IF Len(b0) > HLim + 3 THEN sHBig ELSE sNed, b0, FALSE, 0, FALSE)
  ELSE IF ~ended /\ e.len > HLim THEN R(sHBig, b0, TRUE, 0, FALSE)
  ELSE IF ~ended /\ (IF Kind = "req" THEN ReqLine(SubSeq(b0, 1, e.len)).c # "good" ELSE RespLine(SubSeq(b0, 1, e.len)).c # "good")
       THEN R(sParse, b0, TRUE, 0, FALSE)
  ELSE LET b == IF ended THEN b0 ELSE SubSeq(b0, e.rest + 1, Len(b0)) IN
       IF Mode = "chunk" THEN Chunks(b, off, last)
       ELSE LET hs == HLines(SubSeq(all, 1, HdrEnd(all).len))
                cl == ContentLength(hs)
                c == IF cl >= 0 /\ Len(b) > cl THEN SubSeq(b, 1, cl) ELSE b IN
            IF cl = -2 THEN R(sParse, b, TRUE, 0, FALSE)
            ELSE IF Len(c) > BLim THEN R(sBBig, c, TRUE, 0, FALSE)
            ELSE R(IF Len(c) < cl THEN sNed ELSE sOk, c, TRUE, 0, FALSE)

Pieces == UNION {[1..n -> Alpha] : n \in 1..MaxPiece}
Do(p, s2) == LET r == Feed(p, Fixed \o s2) IN
   /\ buf' = r.buf /\ ended' = r.ended /\ off' = r.off /\ last' = r.last /\ st' = r.st /\ sent' = s2
MNext == began' = TRUE /\ IF ~began
         THEN \* the fixed part comes first, alone or with the beginning of the rest
              \E p \in {<<>>} \union Pieces : Do(Fixed \o p, p)
         ELSE st = sNed /\ Len(sent) < Depth /\ \E p \in Pieces : Len(sent) + Len(p) <= Depth /\ Do(p, sent \o p)
MSpec == MInit /\ [][MNext]_vars

Whole == Outcome(Kind, Fixed \o sent, HLim, BLim)
Conforms == ~began \/ st \in Whole.st
BodyRight == (st = sOk /\ Whole.fl /\ Whole.body # AnyB) => buf = Whole.body
\* a message means the same whatever follows it in the same piece
Prefixes == \A k \in 0..Len(sent) : LET o == Outcome(Kind, Fixed \o SubSeq(sent, 1, k), HLim, BLim) IN
               (o.st = {sOk} /\ o.fl /\ o.body # AnyB) => (Whole.st = {sOk} /\ Whole.body \in {AnyB, o.body})
Emit == (Len(sent) = Depth \/ (st # sNed /\ Len(sent) > 0)) => PrintT("GEN " \o ToJson(Fixed \o sent))
=============================================================================
