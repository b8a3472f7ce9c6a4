------------------------------ MODULE Selector ------------------------------
(* The socket selector: members with their tags, readiness, and what a wait may report.       *)
EXTENDS Bytes, IOUtils
PROP == IF "PROP" \in DOMAIN IOEnv THEN IOEnv.PROP ELSE "ALL"
On(p) == PROP \in {p, "ALL"}

(* ob[i]: [k, open, gen (which connection), n (bytes or pending connections), eof, held]       *)
(* mem[i]: [tag, gen]: member, registered for connection gen                                  *)
(* starve[i]: waits in a row in which i was ready and not reported                            *)
Put(f, k, v) == IF k \in DOMAIN f THEN [f EXCEPT ![k] = v] ELSE f @@ (k :> v)
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Init(e) == {[ob |-> <<>>, mem |-> <<>>, starve |-> <<>>]}

Ready(s, i) == s.ob[i].open /\ (s.ob[i].n > 0 \/ s.ob[i].eof)
\* a member whose registration is for the connection it has now
Fresh(s, i) == i \in DOMAIN s.mem /\ s.mem[i].gen = s.ob[i].gen /\ s.ob[i].open
MustReport(s) == {i \in DOMAIN s.mem : Fresh(s, i) /\ Ready(s, i)}
\* a member reconnected since it was added may or may not be watched
MayReport(s, e) == {i \in DOMAIN s.mem : (Ready(s, i) \/ i = e.late)}
Batch == 16        \* every ready member is reported at once at least up to this many

StepAdd(s, e) ==
  LET refuse == ~s.ob[e.i].open \/ e.i \in DOMAIN s.mem \/ e.kfail      \* or the kernel would not register it
      added == [s EXCEPT !.mem = Put(@, e.i, [tag |-> e.tag, gen |-> s.ob[e.i].gen])] IN
  IF On("C12") THEN (IF e.thrown = refuse THEN {IF refuse THEN s ELSE added} ELSE {})
  ELSE {IF refuse \/ e.thrown THEN s ELSE added}
StepRm(s, e) ==
  LET was == e.i \in DOMAIN s.mem
      t == [s EXCEPT !.mem = Del(@, e.i), !.starve = Del(@, e.i)] IN
  IF On("C12") /\ ~(~e.thrown /\ e.ret = (IF was THEN s.mem[e.i].tag ELSE 0) /\ e.alive = s.ob[e.i].held) THEN {}
  ELSE {IF e.thrown THEN s ELSE t}

StepWait(s, e) ==
  LET R == {e.res[k][1] : k \in 1..Len(e.res)}
      must == MustReport(s)
      ns == [i \in must |-> IF i \in R THEN 0 ELSE (IF i \in DOMAIN s.starve THEN s.starve[i] ELSE 0) + 1]
      sound == /\ ~e.thrown
               /\ Cardinality(R) = Len(e.res)
               /\ R \subseteq MayReport(s, e)
               /\ \A k \in 1..Len(e.res) : e.res[k][1] \in DOMAIN s.mem => e.res[k][2] = s.mem[e.res[k][1]].tag
      complete == /\ Cardinality(must) <= Batch => must \subseteq R
                  /\ must # {} => Cardinality(R) >= Batch \/ must \subseteq R
                  /\ \A i \in must : ns[i] <= Cardinality(must) \div Batch + 2
      timing == IF e.res # <<>> THEN e.ms <= 0 \/ e.el - 3000 <= e.ms
                ELSE IF e.ms < 0 THEN e.inf                    \* waits for ever
                ELSE ~e.inf /\ e.el >= e.ms /\ e.el - 3000 <= e.ms
      \* membership alone: nothing but members, each with its tag; a member in good standing is not forgotten
      members == /\ ~e.thrown /\ R \subseteq DOMAIN s.mem
                 /\ \A k \in 1..Len(e.res) : e.res[k][1] \in DOMAIN s.mem => e.res[k][2] = s.mem[e.res[k][1]].tag
                 /\ Cardinality(must) <= Batch /\ ~e.intr => must \subseteq R
  IN IF e.kfail THEN (IF e.thrown \/ e.res = <<>> THEN {s} ELSE {})        \* the kernel failed the wait: nothing is claimed
     ELSE IF (On("C11") => sound /\ (e.intr \/ (complete /\ timing))) /\ (On("C12") => members)
     THEN {[s EXCEPT !.starve = IF e.intr THEN @ ELSE ns]} ELSE {}     \* an interrupted wait may return early with nothing

StepRd(s, e) ==
  LET o == s.ob[e.i]
      g == MinI(o.n, e.n) IN
  IF ~o.open THEN (IF e.got = 0 THEN {s} ELSE {})
  ELSE IF e.got = g /\ (e.st = 1) = (g > 0) THEN {[s EXCEPT !.ob[e.i].n = @ - g]} ELSE {}

Step(s, e) ==
  CASE e.e = "New" -> {[s EXCEPT !.ob = Put(@, e.i, [k |-> e.k, open |-> TRUE, gen |-> 1, n |-> 0, eof |-> FALSE, held |-> TRUE])]}
    [] e.e = "Add" -> StepAdd(s, e)
    [] e.e = "Rm" -> StepRm(s, e)
    [] e.e = "Wait" -> StepWait(s, e)
    [] e.e = "Wr" -> {[s EXCEPT !.ob[e.i].n = @ + e.n]}
    [] e.e = "Conn" -> {[s EXCEPT !.ob[e.i].n = @ + 1]}
    [] e.e = "Rd" -> StepRd(s, e)
    [] e.e = "Acc" -> IF (e.st = 1) = (s.ob[e.i].open /\ s.ob[e.i].n > 0) THEN {IF e.st = 1 THEN [s EXCEPT !.ob[e.i].n = @ - 1] ELSE s} ELSE {}
    [] e.e = "PClose" -> {[s EXCEPT !.ob[e.i].eof = TRUE]}
    [] e.e = "Disc" -> {[s EXCEPT !.ob[e.i].open = FALSE, !.ob[e.i].n = 0, !.ob[e.i].eof = FALSE]}
    [] e.e = "Reopen" -> {[s EXCEPT !.ob[e.i] = [k |-> @.k, open |-> TRUE, gen |-> @.gen + 1, n |-> 0, eof |-> FALSE, held |-> @.held]]}
    [] e.e = "Drop" -> IF On("C12") /\ e.alive # (e.i \in DOMAIN s.mem) THEN {} ELSE {[s EXCEPT !.ob[e.i].held = FALSE]}
    [] e.e = "LoopEnd" -> IF On("C11") /\ MustReport(s) # {} THEN {} ELSE {s}       \* a serviced loop ends with nothing ready
    [] e.e = "End" -> IF On("C12") /\ e.alive # <<>> THEN {} ELSE {s}
    [] OTHER -> {}
=============================================================================
