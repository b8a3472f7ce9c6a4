----------------------------- MODULE Gen_Packet ----------------------------
(* Enumerates packet histories from the specification, for replay into the real code. *)
EXTENDS Packet, Json
CONSTANTS Depth, Safe
VARIABLES st, h
Op(name, next) == st' = next /\ h' = Append(h, name)
W(t, toks, v) == \E b \in Enc(TyOf(t[2]), v) : Op(<<"W", t[1]>> \o toks, [st EXCEPT !.data = @ \o b])
R(t) == LET r == Dec(TyOf(t[2]), st.data, st.cur) IN
        Op(<<"R", t[1]>>, IF r.ok THEN [st EXCEPT !.cur = r.p] ELSE st)
Writes == \/ W(<<"u8", <<"u8">> >>, <<7>>, 7)
          \/ W(<<"u16", <<"u16">> >>, <<258>>, <<258>>)
          \/ W(<<"str", <<"str">> >>, <<"6162">>, <<97, 98>>)
          \/ W(<<"vec_u8", <<"vec", <<"u8">> >> >>, <<2, 1, 2>>, <<1, 2>>)
          \/ W(<<"map_u8_str", <<"map", <<"u8">>, <<"str">> >> >>, <<1, 5, "61">>, << <<5, <<97>> >> >>)
          \/ Op(<<"Clear">>, Fresh)
Reads == \E t \in { <<"u8", <<"u8">> >>, <<"u16", <<"u16">> >>, <<"str", <<"str">> >>, <<"vec_u8", <<"vec", <<"u8">> >> >>,
                    <<"map_u8_str", <<"map", <<"u8">>, <<"str">> >> >> } : R(t)
Moves == \E n \in {0, 1, 3, 50} : Op(<<"SetCur", n>>, SetCur(st, n, FALSE)) \/ Op(<<"Seek", 0 - n>>, Seek(st, 0 - n, 0))
                                  \/ Op(<<"RawR", n>>, IF n <= Len(st.data) - st.cur THEN [st EXCEPT !.cur = @ + n] ELSE st)
GInit == st = Fresh /\ h = <<>>
GNext == Len(h) < Depth /\ (Writes \/ (st.data # <<>> /\ Reads) \/ (Safe /\ Moves))
Emit == (Len(h) = Depth) => PrintT("GEN " \o ToJson(h))
GSpec == GInit /\ [][GNext]_<<st, h>>
=============================================================================
