---------------------------- MODULE MC_Selector ----------------------------
(* The design of the selector over a model of epoll, checked against the contract in Selector. *)
(* The kernel registers (descriptor number, open file); closing a file drops its registrations; *)
(* numbers are reused lowest first.  Every operation's result and, in every state, what a wait   *)
(* would report must be behaviour the contract allows.                                          *)
EXTENDS Selector, TLC, Json
CONSTANTS Objs, MaxGen, MaxN, NaiveRemove, Depth
VARIABLES c,        \* contract states consistent with what has been observed
          fd,       \* fd[i]: descriptor number the object holds, 0 none
          own,      \* own[d]: <<object, connection>> the number d currently refers to
          reg,      \* epoll registrations: [fd, file, obj]
          tab,      \* the selector's table: obj -> [fd, tag]
          hist
vars == <<c, fd, own, reg, tab, hist>>

Fds == 1..Cardinality(Objs)
C0 == CHOOSE s \in Init([x |-> 0]) : TRUE
Ob0 == [k |-> "sock", open |-> TRUE, gen |-> 1, n |-> 0, eof |-> FALSE, held |-> TRUE]
MInit ==
  /\ c = [C0 EXCEPT !.ob = [i \in Objs |-> Ob0]]
  /\ fd = [i \in Objs |-> i]
  /\ own = [d \in Fds |-> <<d, 1>>]
  /\ reg = {} /\ tab = <<>> /\ hist = <<>>

See(e) == Step(c, e)
Tag(i) == 10 + i
Log(op) == hist' = IF Depth > 0 THEN Append(hist, op) ELSE hist

DoAdd(i, kf) ==          \* kf: the kernel refuses the registration
  LET dis == fd[i] = 0
      dup == i \in DOMAIN tab
      clash == \E r \in reg : fd[i] # 0 /\ r.fd = fd[i] /\ r.file = own[fd[i]]
      met == kf /\ ~dis /\ ~dup
      refused == dis \/ dup \/ clash \/ met
      e == [e |-> "Add", i |-> i, tag |-> Tag(i), thrown |-> refused, kfail |-> met] IN
  /\ \E t \in See(e) : c' = t
  /\ tab' = IF refused THEN tab ELSE Put(tab, i, [fd |-> fd[i], tag |-> Tag(i)])
  /\ reg' = IF refused THEN reg ELSE reg \union {[fd |-> fd[i], file |-> own[fd[i]], obj |-> i]}
  /\ Log(<<IF kf THEN "addfail" ELSE "add", i>>)
  /\ UNCHANGED <<fd, own>>

DoRm(i) ==
  LET was == i \in DOMAIN tab
      d == IF was THEN tab[i].fd ELSE 0
      \* the descriptor recorded at add time is only touched while the object still has that number
      touch == was /\ (NaiveRemove \/ fd[i] = d)
      gone == {r \in reg : touch /\ own[d] # <<>> /\ r.fd = d /\ r.file = own[d]}
      e == [e |-> "Rm", i |-> i, ret |-> IF was THEN tab[i].tag ELSE 0, thrown |-> FALSE, alive |-> TRUE] IN
  /\ \E t \in See(e) : c' = t
  /\ tab' = Del(tab, i)
  /\ reg' = reg \ gone
  /\ Log(<<"rm", i>>)
  /\ UNCHANGED <<fd, own>>

DoDisc(i) ==
  /\ fd[i] # 0
  /\ \E t \in See([e |-> "Disc", i |-> i]) : c' = t
  /\ reg' = {r \in reg : r.file # own[fd[i]]}
  /\ own' = [own EXCEPT ![fd[i]] = <<>>]
  /\ fd' = [fd EXCEPT ![i] = 0]
  /\ Log(<<"disc", i>>)
  /\ UNCHANGED tab

DoReopen(i) ==
  LET free == {d \in Fds : own[d] = <<>>}
      d == CHOOSE x \in free : \A y \in free : x <= y IN
  /\ fd[i] = 0 /\ c.ob[i].gen < MaxGen
  /\ \E t \in See([e |-> "Reopen", i |-> i]) : c' = t
  /\ own' = [own EXCEPT ![d] = <<i, c.ob[i].gen + 1>>]
  /\ fd' = [fd EXCEPT ![i] = d]
  /\ Log(<<"reopen", i>>)
  /\ UNCHANGED <<reg, tab>>

DoWr(i) ==
  /\ fd[i] # 0 /\ ~c.ob[i].eof /\ c.ob[i].n < MaxN
  /\ \E t \in See([e |-> "Wr", i |-> i, n |-> 1]) : c' = t
  /\ Log(<<"wr", i>>)
  /\ UNCHANGED <<fd, own, reg, tab>>
DoRd(i) ==
  /\ fd[i] # 0 /\ c.ob[i].n > 0
  /\ \E t \in See([e |-> "Rd", i |-> i, n |-> 1, got |-> 1, st |-> 1]) : c' = t
  /\ Log(<<"rd", i>>)
  /\ UNCHANGED <<fd, own, reg, tab>>
DoPClose(i) ==
  /\ fd[i] # 0 /\ ~c.ob[i].eof
  /\ \E t \in See([e |-> "PClose", i |-> i]) : c' = t
  /\ Log(<<"pclose", i>>)
  /\ UNCHANGED <<fd, own, reg, tab>>

Next == /\ Depth = 0 \/ Len(hist) < Depth
        /\ \E i \in Objs : (\E kf \in BOOLEAN : DoAdd(i, kf)) \/ DoRm(i) \/ DoDisc(i) \/ DoReopen(i) \/ DoWr(i) \/ DoRd(i) \/ DoPClose(i)
MSpec == MInit /\ [][Next]_vars

\* what epoll would report: live registrations whose file is ready
Hits == {r \in reg : own[r.fd] = r.file /\ (c.ob[r.file[1]].n > 0 \/ c.ob[r.file[1]].eof)}
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
WaitEvent == LET h == SeqOf(Hits) IN
   [e |-> "Wait", ms |-> 0, el |-> 0, thrown |-> FALSE, late |-> 0, intr |-> FALSE, inf |-> FALSE, kfail |-> FALSE,
    res |-> [k \in 1..Len(h) |-> <<h[k].obj, IF h[k].obj \in DOMAIN tab THEN tab[h[k].obj].tag ELSE 0>>]]
WaitConforms == See(WaitEvent) # {}
\* no operation of the design is refused by the contract
OpsConform == \A i \in Objs :
  /\ See([e |-> "Rm", i |-> i, ret |-> IF i \in DOMAIN tab THEN tab[i].tag ELSE 0, thrown |-> FALSE, alive |-> TRUE]) # {}
  /\ LET refused == fd[i] = 0 \/ i \in DOMAIN tab \/ \E r \in reg : fd[i] # 0 /\ r.fd = fd[i] /\ r.file = own[fd[i]] IN
     See([e |-> "Add", i |-> i, tag |-> Tag(i), thrown |-> refused, kfail |-> FALSE]) # {}
NoDangling == \A r \in reg : r.obj \in DOMAIN tab
Agree == DOMAIN tab = DOMAIN c.mem

Op(o) == (IF o[1] = "addfail" THEN "add" ELSE o[1]) \o " " \o ToString(o[2]) \o (IF o[1] = "add" THEN " " \o ToString(Tag(o[2]))
         ELSE IF o[1] = "addfail" THEN " " \o ToString(Tag(o[2])) \o " fail"
         ELSE IF o[1] \in {"wr", "rd"} THEN " 1" ELSE "")
GenOut == Depth > 0 /\ Len(hist) = Depth =>
  PrintT("GEN " \o ToJson([k \in 1..Len(hist) |-> Op(hist[k])]))
=============================================================================
