-------------------------------- MODULE Crew --------------------------------
(* Several objects at work at once (C35). Each is described by its own specification; the  *)
(* state of the whole is one state per object, and a step of one object changes that one's *)
(* state only - whatever the order in which the steps of different objects are taken.      *)
EXTENDS Naturals, Sequences, TLC
P == INSTANCE Packet
F == INSTANCE Framing
H == INSTANCE Http
U == INSTANCE Url
A == INSTANCE Api
W == INSTANCE WebSocket

InitOf(d, e) ==
  CASE d = "packet" -> P!Init(e)
    [] d = "stream" -> F!Init(e)
    [] d = "http" -> H!Init(e)
    [] d = "url" -> U!Init(e)
    [] d = "api" -> A!AInit(e)
    [] d = "ws" -> W!Init(e)
StepOf(d, s, e) ==
  CASE d = "packet" -> P!Step(s, e)
    [] d = "stream" -> F!Step(s, e)
    [] d = "http" -> H!Step(s, e)
    [] d = "url" -> U!Step(s, e)
    [] d = "api" -> A!AStep(s, e)
    [] d = "ws" -> W!Step(s, e)

\* w: number of an object -> [d: its kind, S: the states it may be in]
CInit == <<>>
CStep(w, e) ==
  IF "ln" \notin DOMAIN e THEN {}                                  \* a race, a crash, a hang
  ELSE IF e.e = "Open" THEN (IF e.ln \in DOMAIN w THEN {} ELSE {(e.ln :> [d |-> e.drv, S |-> InitOf(e.drv, e)]) @@ w})
  ELSE IF e.ln \notin DOMAIN w THEN {}
  ELSE LET N == UNION {StepOf(w[e.ln].d, s, e) : s \in w[e.ln].S}
       IN IF N = {} THEN {} ELSE {[w EXCEPT ![e.ln].S = N]}
=============================================================================
