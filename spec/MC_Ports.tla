------------------------------- MODULE MC_Ports ------------------------------
(* The design of listening over a model of the kernel's port table, checked against Ports.    *)
(* The kernel: sockets bound to a port for some families; who may share with whom is decided   *)
(* by the options set on both; connections stay remembered after they are closed (left).       *)
(* Reuse, Dual, CloseFirst are the design decisions: the options set before binding, and        *)
(* whether listening again lets go of the old descriptor first.                                *)
EXTENDS Ports, Json
CONSTANTS Objs, Socks, NPorts, MaxPeers, Lists, Reuse, Dual, CloseFirst, Depth
VARIABLES S,      \* contract states consistent with what has been observed
          k,      \* k[o]: the kernel socket of listener o, or none
          cn,     \* cn[c]: what an accepted connection is bound to, or none
          old,    \* sockets nobody refers to any more, though open
          left, oth, np, hist
vars == <<S, k, cn, old, left, oth, np, hist>>
P == 1..NPorts
None == [port |-> 0, fams |-> {}, q |-> <<>>]
MInit == /\ LET t == CHOOSE s \in Init([x |-> 0]) : TRUE
            IN S = {[t EXCEPT !.li = [o \in Objs |-> Off], !.ver = [o \in Objs |-> 0]]}
         /\ k = [o \in Objs |-> None] /\ cn = [c \in Socks |-> None] /\ old = {} /\ left = {} /\ oth = {} /\ np = 0 /\ hist = <<>>
See(e) == S' = UNION {Step(s, e) : s \in S}
Log(op) == hist' = (IF Depth > 0 THEN Append(hist, op) ELSE hist) /\ (Depth > 0 => Len(hist) < Depth)

\* may a socket with this library's options be bound there, next to what exists?
Free(o, port, F) ==
  /\ \A x \in left : x[1] = port /\ x[2] \in F => Reuse          \* another program's connections: both sides allow reuse
  /\ \A b \in oth : ~(b[1] = port /\ b[2] \in F)                  \* another program's listener does not share
  /\ (~Reuse => /\ \A c \in Socks : ~(cn[c].port = port /\ cn[c].fams \cap F # {})
                /\ \A p \in Objs : p = o \/ ~(k[p].port = port /\ k[p].fams \cap F # {})
                /\ \A x \in old : ~(x.port = port /\ x.fams \cap F # {})
                /\ (~CloseFirst => ~(k[o].port = port /\ k[o].fams \cap F # {})))
FamsOf(f) == IF f = 4 THEN {4} ELSE IF Dual THEN {4, 6} ELSE {6}

Listen == \E o \in Objs, port \in P, L \in Lists :
  LET good == {i \in DOMAIN L : Free(o, port, FamsOf(L[i]))}
      i == CHOOSE x \in good : \A y \in good : x <= y
      sock == [port |-> port, fams |-> FamsOf(L[i]), q |-> <<>>]
  IN /\ k' = [k EXCEPT ![o] = IF good = {} THEN None ELSE sock]
     /\ old' = (IF CloseFirst \/ k[o] = None THEN old ELSE old \cup {k[o]})
     /\ See([e |-> "Listen", o |-> o, port |-> port, cands |-> L, fault |-> FALSE, st |-> IF good = {} THEN BindFailed ELSE Success, up |-> good # {}])
     /\ Log(<<"listen", o, port, L>>) /\ UNCHANGED <<cn, left, oth, np>>

Close == \E o \in Objs : /\ k[o] # None /\ k' = [k EXCEPT ![o] = None] /\ See([e |-> "Close", o |-> o, up |-> FALSE])
                         /\ Log(<<"close", o>>) /\ UNCHANGED <<cn, old, left, oth, np>>

Peer == \E port \in P, f \in {4, 6} :
  LET at == {o \in Objs : k[o].port = port /\ f \in k[o].fams}
      ghost == {x \in old : x.port = port /\ f \in x.fams}
      Say(by) == See([e |-> "Peer", id |-> np + 1, port |-> port, fam |-> f, by |-> by])
  IN /\ np < MaxPeers /\ np' = np + 1 /\ Log(<<"peer", np + 1, port, f>>) /\ UNCHANGED <<cn, old, left, oth>>
     /\ IF at # {} THEN \E o \in at : k' = [k EXCEPT ![o].q = Append(@, <<f, np + 1>>)] /\ Say("us")
        ELSE k' = k /\ Say(IF ghost # {} THEN "us" ELSE IF <<port, f>> \in oth THEN "other" ELSE "none")

Accept == \E o \in Objs, c \in Socks :
  /\ k[o].q # <<>> /\ cn[c] = None
  /\ cn' = [cn EXCEPT ![c] = [k[o] EXCEPT !.q = <<>>]] /\ k' = [k EXCEPT ![o].q = Tail(@)]
  /\ See([e |-> "Acc", o |-> o, c |-> c, waits |-> TRUE, fault |-> FALSE, st |-> Success, peer |-> Name(Head(k[o].q)), up |-> TRUE])
  /\ Log(<<"acc", o, c>>) /\ UNCHANGED <<old, left, oth, np>>
Disc == \E c \in Socks : /\ cn[c] # None /\ left' = left \cup {<<cn[c].port, f>> : f \in cn[c].fams} /\ cn' = [cn EXCEPT ![c] = None]
                         /\ See([e |-> "Disc", c |-> c]) /\ Log(<<"disc", c>>) /\ UNCHANGED <<k, old, oth, np>>
Linger == \E port \in P, f \in {4, 6} : /\ left' = left \cup {<<port, f>>} /\ left' # left /\ See([e |-> "Linger"])
                                        /\ Log(<<"linger", port, f>>) /\ UNCHANGED <<k, cn, old, oth, np>>
Other == \E port \in P, f \in {4, 6} :
  LET b == <<port, f>> IN
  /\ \A o \in Objs : ~(k[o].port = port /\ f \in k[o].fams)
  /\ \A x \in old : ~(x.port = port /\ f \in x.fams)
  /\ oth' = (IF b \in oth THEN oth \ {b} ELSE oth \cup {b}) /\ Cardinality(oth') <= 1
  /\ See([e |-> "Other", port |-> port, fam |-> f, on |-> b \notin oth])
  /\ Log(<<"other", port, f, IF b \in oth THEN 0 ELSE 1>>) /\ UNCHANGED <<k, cn, old, left, np>>
MCLists == {<<4>>, <<6>>, <<4, 6>>, <<6, 4>>}
GenLists == {<<4>>, <<6>>, <<6, 4>>}
MNext == Listen \/ Close \/ Peer \/ Accept \/ Disc \/ Linger \/ Other
MSpec == MInit /\ [][MNext]_vars
Allowed == S # {}
\* nothing that is still open is out of everybody's reach
Reachable == old = {}
MView == <<S, k, cn, old, left, oth, np>>
Quiet == Len(hist) = Depth => PrintT("GEN " \o ToJson(hist))
=============================================================================
