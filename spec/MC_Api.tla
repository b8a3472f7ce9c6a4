------------------------------- MODULE MC_Api -------------------------------
(* Designs for the conversions (scanners working from left to right) and for values (shared cells, copied when written to),
   each observed by the contract. *)
EXTENDS Api, Json
CONSTANTS Alpha, Depth

\* ------------------------------------------------------------------ names read from left to right
VARIABLES t, ext, live, was
svars == <<t, ext, live, was>>
SInit == t = <<>> /\ ext = <<>> /\ live = 1..5 /\ was = 0
\* ext: what follows the last dot so far; live: the methods the text may still become; was: a method it has become
SNext == /\ Len(t) < Depth
         /\ \E c \in Alpha :
              /\ t' = Append(t, c)
              /\ ext' = IF c = Dot THEN <<>> ELSE Append(ext, c)
              /\ live' = {k \in live : Len(t) < Len(Methods[k]) /\ Methods[k][Len(t) + 1] = c}
              /\ was' = IF was # 0 THEN was ELSE IF \E k \in live' : Len(Methods[k]) = Len(t) + 1 THEN CHOOSE k \in live' : Len(Methods[k]) = Len(t) + 1 ELSE 0
SSpec == SInit /\ [][SNext]_svars
ScanType == IF was # 0 THEN was - 1 ELSE IF live # {} THEN TypePartial ELSE TypeUnknown
RTypeAgrees == ScanType = RTypeOf(t)
\* a text only ever goes from partial to a type or to unknown
Settles == [][(RTypeOf(t) # TypePartial => RTypeOf(t') = RTypeOf(t))]_svars
ExtAgrees == ext = Ext(t) /\ MimeOk(t, TypeOf(ext))
\* only what follows the last dot matters, and a name may leave the dot out
ExtOnly == TypeOf(Ext(t)) = TypeOf(ext) /\ TypeOf(Ext(<<Dot>> \o ext)) = TypeOf(ext) /\ (\A c \in Alpha : TypeOf(Ext(<<c, Dot>> \o ext)) = TypeOf(ext))
ReverseTwice == Reverse(Reverse(t)) = t /\ (Len(t) > 0 => Reverse(t)[1] = t[Len(t)])
Emit == t # <<>> => PrintT("GEN " \o ToJson(t))
=============================================================================
