------------------------------ MODULE MC_Values -----------------------------
(* Values as cells: a copy shares its cell until one of the two is written to. *)
EXTENDS Api, Json
CONSTANTS Ids, MaxOps, Shared
VARIABLES cell, store, s, hist, why
vars == <<cell, store, s, hist, why>>
KeyOf == [a |-> <<97>>, A |-> <<65>>, b |-> <<98>>]
ValOf == [i \in 0..1 |-> <<118, 48 + i>>]
Fresh0 == [uri |-> <<47>>, h |-> Empty]
Free(cs) == CHOOSE c \in 1..Cardinality(Ids) : c \notin cs
Used == {cell[i] : i \in Ids} \ {0}
Init0 == cell = [i \in Ids |-> IF i = 0 THEN 1 ELSE 0] /\ store = [c \in 1..Cardinality(Ids) |-> Fresh0]
         /\ s = [v |-> [i \in 0..3 |-> IF i = 0 THEN NewVal("req") ELSE None]] /\ hist = <<>> /\ why = ""
\* the contract sees event e
See(e, op) == LET N == AStep(s, e) IN
  /\ hist' = Append(hist, op)
  /\ IF N = {} THEN why' = e.e /\ s' = s ELSE why' = why /\ s' \in N
\* the cell i may write to, and the store with it being i's own
Own(i) == IF Shared \/ ~\E j \in Ids : j # i /\ cell[j] = cell[i] THEN [c |-> cell[i], st |-> store]
          ELSE LET f == Free(Used) IN [c |-> f, st |-> [store EXCEPT ![f] = store[cell[i]]]]
Live(i) == cell[i] # 0
New(i) == LET f == Free({cell[j] : j \in Ids \ {i}}) IN /\ cell' = [cell EXCEPT ![i] = f] /\ store' = [store EXCEPT ![f] = Fresh0]
          /\ See([e |-> "New", n |-> i, kind |-> "req"], [op |-> "new", n |-> i])
Put0(i, k, x) == LET o == Own(i) IN /\ Live(i) /\ cell' = [cell EXCEPT ![i] = o.c] /\ store' = [o.st EXCEPT ![o.c].h = Set(@, KeyOf[k], ValOf[x])]
          /\ See([e |-> "Put", n |-> i, m |-> "h", k |-> KeyOf[k], b |-> ValOf[x]], [op |-> "put", n |-> i, k |-> k, v |-> x])
Read0(i, k) == LET o == Own(i)  v == Get(store[cell[i]].h, KeyOf[k]) IN
          /\ Live(i) /\ cell' = [cell EXCEPT ![i] = o.c] /\ store' = [o.st EXCEPT ![o.c].h = Set(@, KeyOf[k], v)]
          /\ See([e |-> "Read", n |-> i, m |-> "h", k |-> KeyOf[k], b |-> v], [op |-> "read", n |-> i, k |-> k])
Uri0(i, x) == LET o == Own(i) IN /\ Live(i) /\ cell' = [cell EXCEPT ![i] = o.c] /\ store' = [o.st EXCEPT ![o.c].uri = <<47>> \o ValOf[x]]
          /\ See([e |-> "Uri", n |-> i, b |-> ValOf[x]], [op |-> "uri", n |-> i, v |-> x])
Give(i, j, mv) == /\ Live(i) /\ i # j
          /\ cell' = [cell EXCEPT ![j] = cell[i], ![i] = IF mv THEN 0 ELSE @] /\ UNCHANGED store
          /\ See([e |-> "Give", n |-> i, to |-> j, moved |-> mv], [op |-> IF mv THEN "move" ELSE "copy", n |-> i, to |-> j])
Has(m, k) == << KeyOf[k], IF Lower(KeyOf[k]) \in DOMAIN m THEN 1 ELSE 0 >>
Look0(i) == LET w == store[cell[i]] IN /\ Live(i) /\ UNCHANGED <<cell, store>>
          /\ See([e |-> "Look", n |-> i, uri |-> w.uri, body |-> <<>>, type |-> 6, ver |-> 2, status |-> 200,
                  h |-> << Has(w.h, "a"), Has(w.h, "A"), Has(w.h, "b") >>, g |-> <<>>, p |-> <<>>], [op |-> "look", n |-> i])
Next0 == /\ Len(hist) < MaxOps
         /\ \E i \in Ids : \/ New(i) \/ Look0(i) \/ (\E k \in {"a", "A", "b"} : Read0(i, k) \/ \E x \in 0..1 : Put0(i, k, x))
                           \/ (\E x \in 0..1 : Uri0(i, x)) \/ (\E j \in Ids, mv \in BOOLEAN : Give(i, j, mv))
VSpec == Init0 /\ [][Next0]_vars
Allowed == why = ""
\* two values which were not copied from one another do not follow one another: checked through Allowed; the cells in use are enough
Enough == Cardinality(Used) <= Cardinality(Ids)
Same == \A i \in Ids : Live(i) => s.v[i] # None /\ s.v[i].uri = store[cell[i]].uri /\ s.v[i].h = store[cell[i]].h
View == <<cell, store, s, why, Len(hist)>>
Emit == Len(hist) = MaxOps => PrintT("GEN " \o ToJson(hist))
=============================================================================
