------------------------------ MODULE MC_Crew ------------------------------
(* Every interleaving of what a few objects do. Whatever the order, each step is possible exactly as it would be for the object *)
(* alone, and leaves that object where it would be alone. The orders are the schedules the real objects are put through.        *)
EXTENDS Crew, Json
CONSTANTS Combo, Gen
GET1 == <<71, 69, 84, 32, 47, 32>>                                     \* "GET / "
GET2 == <<72, 84, 84, 80, 47, 49, 46, 49, 13, 10>>                     \* "HTTP/1.1"
OK1 == <<72, 84, 84, 80, 47, 49, 46, 49, 32, 50, 48, 48, 32, 79>>      \* "HTTP/1.1 200 O"
OK2 == <<75, 13, 10>>
LEN1 == <<67, 111, 110, 116, 101, 110, 116, 45, 76, 101, 110, 103, 116, 104, 58, 32, 49, 13, 10, 13, 10>>     \* "Content-Length: 1"
Feed(b, st) == [e |-> "Feed", b |-> b, st |-> st, thrown |-> FALSE]
Pk(e, cur, size) == [am |-> 0, cur |-> cur, size |-> size, rem |-> size - cur] @@ e
Prog ==
  [packet |-> <<[e |-> "Open", drv |-> "packet"], Pk([e |-> "RawW", v |-> <<7, 8>>], 0, 2), Pk([e |-> "RawR", big |-> FALSE, n |-> 1, ok |-> TRUE, v |-> <<7>>], 1, 2),
                Pk([e |-> "Dump", v |-> <<0, 0, 0, 2, 7, 8>>], 1, 2), Pk([e |-> "Clear"], 0, 0)>>,
   stream |-> <<[e |-> "Open", drv |-> "stream", inp |-> <<0, 0, 0, 1, 9, 256, 0, 0, 0, 0>>, out |-> <<>>],
                [e |-> "PRecv", st |-> 1, rd |-> 5, am |-> 0, cur |-> 0, size |-> 1, v |-> <<9>>], [e |-> "PRecv", st |-> 6, rd |-> 0, am |-> 0],
                [e |-> "PRecv", st |-> 1, rd |-> 4, am |-> 0, cur |-> 0, size |-> 0, v |-> <<>>], [e |-> "PRecv", st |-> 4, rd |-> 0, am |-> 0]>>,
   req |-> <<[e |-> "Open", drv |-> "http", kind |-> "req", hlim |-> 100, blim |-> 100], Feed(GET1, 11), Feed(GET2, 11), Feed(<<13>>, 11), Feed(<<10>>, 1)>>,
   resp |-> <<[e |-> "Open", drv |-> "http", kind |-> "resp", hlim |-> 100, blim |-> 100], Feed(OK1, 11), Feed(OK2, 11), Feed(LEN1, 11), Feed(<<65>>, 1)>>]
\* which objects take part
Kind == CASE Combo = 1 -> <<"packet", "stream">>
          [] Combo = 2 -> <<"req", "resp">>
          [] Combo = 3 -> <<"req", "packet", "stream">>
          [] Combo = 4 -> <<"req", "req", "resp", "stream">>
VARIABLES w, at, ord
Event(n) == [ln |-> n] @@ Prog[Kind[n]][at[n]]
\* an object alone
RECURSIVE Alone(_, _)
Alone(n, k) == IF k = 1 THEN InitOf(Prog[Kind[n]][1].drv, Prog[Kind[n]][1])
               ELSE UNION {StepOf(Prog[Kind[n]][1].drv, s, Prog[Kind[n]][k]) : s \in Alone(n, k - 1)}
CInit0 == w = CInit /\ at = [n \in 1..Len(Kind) |-> 1] /\ ord = <<>>
Act(n) == /\ at[n] <= Len(Prog[Kind[n]])
          /\ LET N == CStep(w, Event(n)) IN w' = IF N = {} THEN << >> ELSE CHOOSE x \in N : TRUE
          /\ at' = [at EXCEPT ![n] = @ + 1]
          /\ ord' = IF Gen THEN Append(ord, n - 1) ELSE ord
Done == \A n \in 1..Len(Kind) : at[n] > Len(Prog[Kind[n]])
CNext == (\E n \in 1..Len(Kind) : Act(n)) \/ (Done /\ UNCHANGED <<w, at, ord>>)
CSpec == CInit0 /\ [][CNext]_<<w, at, ord>>
Independent == \A n \in 1..Len(Kind) :
  IF at[n] = 1 THEN n \notin DOMAIN w ELSE n \in DOMAIN w /\ w[n].S # {} /\ w[n].S = Alone(n, at[n] - 1)
Emit == (Gen /\ Done) => PrintT("GEN " \o ToJson(ord))
\* only the object which takes the step changes
Local == [][\A n \in 1..Len(Kind) : at'[n] = at[n] => (n \in DOMAIN w) = (n \in DOMAIN w') /\ (n \in DOMAIN w => w'[n] = w[n])]_<<w, at, ord>>
=============================================================================
