------------------------------ MODULE MC_Packet ----------------------------
(* Exhaustive check of the packet design with tiny values: whatever is written, read, *)
(* sought or injected, the cursor stays in bounds, reads invent nothing, and values   *)
(* written are read back in order.                                                    *)
EXTENDS Packet
CONSTANTS MaxData, MaxQ

VARIABLES st, q, pure   \* q: values written and not yet read; pure: only typed writes and in-order reads so far
vars == <<st, q, pure>>

Vals == { <<<<"u8">>, 3>>, <<<<"u16">>, <<258>> >>, <<<<"str">>, <<7>> >>, <<<<"str">>, <<>> >>,
          <<<<"vec", <<"u8">> >>, <<1, 2>> >>, <<<<"map", <<"u8">>, <<"u8">> >>, << <<1, 9>>, <<2, 8>> >> >>,
          <<<<"pair", <<"bool">>, <<"u8">> >>, <<1, 4>> >>, <<<<"e8">>, <<0, 200>> >> }
Types == {v[1] : v \in Vals}
Raws == { <<0>>, <<0, 0, 0, 2>>, <<255, 255, 255, 255>>, <<0, 0, 0, 1, 65>> }

MInit == st = Fresh /\ q = <<>> /\ pure = TRUE
Write == \E v \in Vals : \E b \in Enc(TyOf(v[1]), v[2]) :
            /\ Len(st.data) + Len(b) <= MaxData /\ Len(q) < MaxQ
            /\ st' = [st EXCEPT !.data = @ \o b] /\ q' = Append(q, v) /\ UNCHANGED pure
ReadNext == /\ pure /\ q # <<>>
            /\ LET r == Dec(TyOf(q[1][1]), st.data, st.cur) IN
               /\ Assert(r.ok /\ Same(TyOf(q[1][1]), q[1][2], r.v), <<"round trip lost", st, q>>)
               /\ st' = [st EXCEPT !.cur = r.p]
            /\ q' = Tail(q) /\ UNCHANGED pure
ReadAny == \E t \in Types : LET r == Dec(TyOf(t), st.data, st.cur) IN
              /\ r.ok
              /\ st' = [st EXCEPT !.cur = r.p] /\ pure' = FALSE /\ UNCHANGED q
Inject == \E b \in Raws : /\ Len(st.data) + Len(b) <= MaxData
                          /\ st' = [st EXCEPT !.data = @ \o b] /\ pure' = FALSE /\ UNCHANGED q
Move == /\ \E n \in {0, 1, MaxData + 5} : \/ st' = SetCur(st, n, FALSE)
                                          \/ st' = Seek(st, n, 0) \/ st' = Seek(st, 0 - n, 0) \/ st' = Seek(st, 0, 1)
        /\ pure' = FALSE /\ UNCHANGED q
Clear == st' = Fresh /\ q' = <<>> /\ pure' = TRUE
MNext == Write \/ ReadNext \/ ReadAny \/ Inject \/ Move \/ Clear
MSpec == MInit /\ [][MNext]_vars

CursorInBounds == st.cur \in 0..Len(st.data)
BytesOnly == \A i \in 1..Len(st.data) : st.data[i] \in Byte
\* after reading everything written, nothing is left
DrainedWhenRead == (pure /\ q = <<>>) => st.cur = Len(st.data)
\* a decoded value re-encodes to exactly the bytes consumed (nothing is invented)
NothingInvented == \A t \in Types : LET r == Dec(TyOf(t), st.data, st.cur) IN
    r.ok => /\ r.p <= Len(st.data) /\ r.p >= st.cur
            /\ (TyOf(t).k # "bool" /\ t[1] # "pair") => Slice(st.data, st.cur, r.p - st.cur) \in Enc(TyOf(t), r.v)
AppendOnly == [][st' = Fresh \/ Take(st'.data, Len(st.data)) = st.data]_vars
=============================================================================
