------------------------------- MODULE MC_Shut ------------------------------
(* Ending a blocked call. One thread uses a socket or a listener with calls that may block;   *)
(* another one wants it to stop: it calls shutdown, waits for the first thread to finish and   *)
(* closes. A third party in the process opens and closes descriptors of its own all the time.  *)
(*                                                                                            *)
(* How is what shutdown asks of the kernel (0 reading, 1 writing, 2 both, 9 closes instead).   *)
(* Checked: every event is one the contract (Tcp, C34) allows; nobody else's descriptor is      *)
(* touched; and the controller always gets to the end, whatever the peer does.                 *)
EXTENDS Tcp, Json
CONSTANTS Kind, How, MaxOps, Patient
VARIABLES s, od, kern, w, c, n, hist, ok
vars == <<s, od, kern, w, c, n, hist, ok>>
F == 0..1
Shut0 == [open |-> FALSE, own |-> 0, rd |-> FALSE, wr |-> FALSE]
O == 1
Objs == << IF Kind = "sock" THEN [o |-> O, d |-> od, c |-> od >= 0, k |-> "sock", bl |-> TRUE, rt |-> Zero2, wt |-> Zero2, addr |-> ""]
           ELSE [o |-> O, d |-> od, c |-> od >= 0, k |-> "lst"],
           [o |-> 2, d |-> -1, c |-> FALSE, k |-> "sock", bl |-> TRUE, rt |-> Zero2, wt |-> Zero2, addr |-> ""] >>
ObjsD(x) == [Objs EXCEPT ![1].d = x, ![1].c = x >= 0]
BlockOp == IF Kind = "sock" THEN "rraw" ELSE "acc"
RECURSIVE Feed(_, _)
Feed(t, es) == IF es = <<>> THEN t ELSE LET N == Step(t, Head(es)) IN IF N = {} THEN [bad |-> Head(es)] ELSE Feed(CHOOSE x \in N : TRUE, Tail(es))
See(es) == LET t == Feed(s, es) IN IF "bad" \in DOMAIN t THEN ok' = FALSE /\ s' = s ELSE ok' = ok /\ s' = t
ObRec(k, d) == [k |-> k, d |-> d, rt |-> Zero2, wt |-> Zero2, fam |-> 0, bl |-> TRUE]

SInit == /\ od = 0 /\ kern = [f \in F |-> IF f = 0 THEN [Shut0 EXCEPT !.open = TRUE, !.own = O] ELSE Shut0]
         /\ w = [pc |-> "idle", f |-> -1] /\ c = "free" /\ n = 0 /\ hist = <<>> /\ ok = TRUE
         /\ s = [fd |-> (0 :> [NewFd(O, FALSE, IF Kind = "sock" THEN "est" ELSE "listen", 0) EXCEPT !.nd = TRUE]), lists |-> {}, call |-> NoCall,
                 ob |-> (O :> ObRec(IF Kind = "sock" THEN "sock" ELSE "lst", 0)) @@ (2 :> ObRec("sock", -1))]

CallEv == IF Kind = "sock" THEN [e |-> "Call", op |-> "rraw", o |-> O, n |-> 4] ELSE [e |-> "Call", op |-> "acc", o |-> O, c |-> 2]
KEv(f, good) == IF Kind = "sock" THEN [e |-> "KRecv", fd |-> f, max |-> 4, res |-> IF good THEN 1 ELSE 0, err |-> "", b |-> IF good THEN <<7>> ELSE <<>>]
                ELSE [e |-> "KAcc", fd |-> f, new |-> -1, peer |-> "", nb |-> FALSE]
RetEv(good) == IF Kind = "sock" THEN [e |-> "Ret", op |-> "rraw", st |-> IF good THEN Success ELSE Disconnected, cnt |-> IF good THEN 1 ELSE 0,
                                      b |-> IF good THEN <<7>> ELSE <<>>, tailok |-> TRUE, objs |-> Objs]
               ELSE [e |-> "Ret", op |-> "acc", st |-> AcceptError, cnt |-> 0, b |-> <<>>, tailok |-> TRUE, objs |-> Objs]

\* the working thread: a call, which blocks in the kernel
Begin == /\ w.pc = "idle" /\ n < MaxOps /\ n' = n + 1
         /\ w' = [pc |-> "blocked", f |-> od] /\ See(<<CallEv>>) /\ hist' = Append(hist, <<BlockOp>>) /\ UNCHANGED <<od, kern, c>>
Done == /\ w.pc = "idle" /\ n = MaxOps /\ w' = [w EXCEPT !.pc = "done"] /\ UNCHANGED <<s, od, kern, c, n, hist, ok>>
\* the kernel lets the call go
Dead(f) == f < 0 \/ ~kern[f].open
Woken == /\ w.pc = "blocked" /\ (Dead(w.f) \/ kern[w.f].rd)
         /\ See(<<KEv(w.f, FALSE), RetEv(FALSE)>>) /\ w' = [pc |-> "done", f |-> -1] /\ UNCHANGED <<od, kern, c, n, hist>>
\* something arrives: for a socket a byte, for a listener a connection it cannot take
Arrives == /\ w.pc = "blocked" /\ ~Dead(w.f) /\ ~kern[w.f].rd
           /\ See(<<KEv(w.f, TRUE), RetEv(TRUE)>>) /\ w' = [pc |-> "idle", f |-> -1] /\ UNCHANGED <<od, kern, c, n>>
           /\ hist' = Append(hist, <<"arrives">>)

\* the controlling thread
ShutEvs(f) == IF How = 9 THEN <<[e |-> "KClose", fd |-> f, ok |-> TRUE]>> ELSE <<[e |-> "KShut", fd |-> f, how |-> How]>>
Shutdown == /\ c = "free"
            /\ See(IF w.pc = "blocked" THEN <<[e |-> "Int"]>> \o ShutEvs(od) \o <<[e |-> "IntEnd", objs |-> ObjsD(IF How = 9 THEN -1 ELSE od)]>>
                   ELSE <<[e |-> "Call", op |-> "shut", o |-> O]>> \o ShutEvs(od) \o <<[e |-> "Ret", op |-> "shut", st |-> -1, cnt |-> 0, b |-> <<>>, tailok |-> TRUE, objs |-> ObjsD(IF How = 9 THEN -1 ELSE od)]>>)
            /\ kern' = IF How = 9 THEN [kern EXCEPT ![od] = Shut0]
                       ELSE [kern EXCEPT ![od].rd = @ \/ How \in {0, 2}, ![od].wr = @ \/ How \in {1, 2}]
            /\ od' = IF How = 9 THEN -1 ELSE od
            /\ c' = "join" /\ hist' = Append(hist, <<IF w.pc = "blocked" THEN "intr" ELSE "shut">>) /\ UNCHANGED <<w, n>>
Join == /\ c = "join" /\ w.pc = "done" /\ c' = "close" /\ UNCHANGED <<s, od, kern, w, n, hist, ok>>
\* without patience the controller closes while the other thread may still be in the call
Hasty == /\ ~Patient /\ c = "join" /\ c' = "close" /\ UNCHANGED <<s, od, kern, w, n, hist, ok>>
Close == /\ c = "close" /\ kern' = (IF od >= 0 THEN [kern EXCEPT ![od] = Shut0] ELSE kern) /\ od' = -1 /\ c' = "end" /\ UNCHANGED <<s, w, n, hist, ok>>
\* the third party
Third == \/ \E f \in F : /\ ~kern[f].open /\ \A g \in 0..(f - 1) : kern[g].open
                         /\ kern' = [kern EXCEPT ![f] = [Shut0 EXCEPT !.open = TRUE, !.own = 9]]
                         /\ See(IF w.pc = "idle" /\ s.call.op = "none" THEN <<[e |-> "Ext", fd |-> f, nb |-> FALSE]>> ELSE <<>>) /\ UNCHANGED <<od, w, c, n, hist>>
         \/ \E f \in F : /\ kern[f].open /\ kern[f].own = 9 /\ kern' = [kern EXCEPT ![f] = Shut0] /\ UNCHANGED <<s, od, w, c, n, hist, ok>>

SNext == Begin \/ Done \/ Woken \/ Arrives \/ Shutdown \/ Join \/ Hasty \/ Close \/ Third
SSpec == /\ SInit /\ [][SNext]_vars
         /\ WF_vars(Begin) /\ WF_vars(Done) /\ WF_vars(Woken) /\ WF_vars(Shutdown) /\ WF_vars(Join) /\ WF_vars(Close)
Allowed == ok
\* what the calling thread is blocked on is the object's own descriptor, until the controller has seen it return
StillMine == w.pc = "blocked" => kern[w.f].open /\ kern[w.f].own = O
Ends == <>(c = "end")
SView == <<s, od, kern, w, c, n, ok>>
Quiet == (w.pc = "done" /\ c = "end") => PrintT("GEN " \o ToJson(hist))
\* for generation: no third party, the plan is what counts
GNext == \/ Begin \/ Done \/ Woken \/ Arrives \/ Shutdown \/ Join \/ Close
GSpec == SInit /\ [][GNext]_vars
=============================================================================
