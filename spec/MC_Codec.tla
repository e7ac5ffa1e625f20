------------------------------ MODULE MC_Codec ------------------------------
(* Building a SysEx message from integers and reading it back: every short
   sequence of additions.                                                     *)
EXTENDS SysexApi, TLC, Json
CONSTANTS MaxLen, Big, Print0

Adds == {<<"add7", <<v>> >> : v \in {0, 127}} \cup {<<"add14", <<v>> >> : v \in {0, 127, 128, 16383}}
        \cup {<<"add28", <<v>> >> : v \in {0, 127, 128, 16384, 2097152, 268435455}}
        \cup {<<"add32", w>> : w \in {<<0, 0, 0, 0>>, <<16, 0, 0, 0>>, <<15, 255, 255, 255>>, <<255, 255, 255, 255>>, <<1, 2, 3, 4>>}}
        \cup {<<"addd", w>> : w \in {<<1>>, <<1, 2, 3>>}}
        \cup {<<"addi", id, <<f, m, r>> >> : id \in {<<65, 0, 0>>, <<0, 33, 9>>}, f \in {0, 129}, m \in {16383}, r \in {1, 268435455}}
        \cup (IF Big THEN {<<"add14", <<2^k>> >> : k \in 0..13} \cup {<<"add28", <<2^k>> >> : k \in 0..27} ELSE {})
VARIABLES s, hist, outs
vars == <<s, hist, outs>>
Ev(c) == [o |-> c[1], i |-> Tail(c), r |-> <<>>]
First == <<"sx", <<65, 0, 0>>, <<>>, <<0>> >>
Init == s = ApiStep(ApiStart, Ev(First)).st /\ hist = <<>> /\ outs = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \E c \in Adds : LET r == ApiStep(s, Ev(c)) IN s' = r.st /\ hist' = Append(hist, c) /\ outs' = Append(outs, r.want)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Width(c) == CASE c[1] = "add7" -> 1 [] c[1] = "add14" -> 2 [] c[1] = "add28" -> 4 [] c[1] = "add32" -> 5 [] c[1] = "addd" -> Len(c[2]) [] c[1] = "addi" -> 11
At(j) == FoldLeft(LAMBDA acc, c : acc + Width(c), 0, SubSeq(hist, 1, j - 1))
Getter(j) == CASE hist[j][1] = "add14" -> "get14" [] hist[j][1] = "add28" -> "get28" [] hist[j][1] = "add32" -> "get32" [] hist[j][1] = "addi" -> "geti" [] OTHER -> ""
Gets == [j \in DOMAIN hist |-> IF Getter(j) = "" THEN <<"info">> ELSE << Getter(j), <<At(j)>> >>]
Got(j) == ApiStep(s, Ev(Gets[j])).want
\* every value added is still there, whatever was added since
ReadBack == \A j \in DOMAIN hist : Getter(j) # "" =>
  Got(j) = (CASE hist[j][1] = "addi" -> << hist[j][2], hist[j][3] >> [] OTHER -> << hist[j][2] >>)
SevenBit == AllData(s.data) /\ Len(s.data) = At(Len(hist) + 1) /\ TotalSize(s.id, s.data) = Len(s.data) + 1
Behaviour == [ case |-> << First >> \o hist \o Gets \o << <<"info">> >>,
               expect |-> << << <<65, 0, 0>>, <<>> >> >> \o outs \o [j \in DOMAIN hist |-> Got(j)] \o << ApiStep(s, Ev(<<"info">>)).want >> ]
Show == (Print0 /\ Len(hist) = MaxLen) => PrintT("BEHAVIOUR " \o ToJson(Behaviour))
=============================================================================
