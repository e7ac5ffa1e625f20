------------------------------ MODULE MC_Starve -----------------------------
(* Histories of a parser (whole messages) or collector whose storage may run
   out at any item that needs storage.  Every history is printed with a budget
   of storage around the items that are to fail, executed, and judged.       *)
EXTENDS Callbacks, TLC, Json
CONSTANTS Kind, Parts, MaxLen, Poor, Print0   \* Poor: the largest block there is while storage is short
VARIABLES s, hist, plain, outs, fails
vars == <<s, hist, plain, outs, fails>>
P0 == IF Kind = "p" THEN B!Parser(3, TRUE, TRUE) ELSE X!Collector
Init == s = Feeding(P0, 0, <<>>, FALSE) /\ hist = <<>> /\ plain = P0 /\ outs = <<>> /\ fails = {}
\* outs: what the undisturbed object delivers at each item, and whether it arrived
Good(x) == LET f == Item(Kind, [s EXCEPT !.with = <<>>, !.less = <<>>], x)  r == One(Kind, plain, x) IN
           /\ s' = f /\ plain' = r.o /\ fails' = fails
           /\ \E got \in {f.with, f.less} : outs' = Append(outs, <<r.out, got>>)
Bad(x) == LET r == One(Kind, plain, x) IN
           /\ Stores(Kind, s.o, x)
           /\ s' = Starved(Kind, s, x) /\ plain' = r.o /\ fails' = fails \cup {Len(hist) + 1}
           /\ outs' = Append(outs, <<r.out, <<>>>>)
Next == /\ Len(hist) < MaxLen
        /\ \E c \in DOMAIN Parts : hist' = Append(hist, Parts[c]) /\ (Good(Parts[c]) \/ Bad(Parts[c]))
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Starts == {k \in DOMAIN hist : Begins(Kind, hist[k])}
Since(k) == LET S == {j \in Starts : j <= k} IN IF S = {} THEN 1 ELSE CHOOSE j \in S : \A m \in S : m <= j
\* nothing is ever invented or altered
Contained == \A k \in DOMAIN outs : outs[k][2] \in {outs[k][1], <<>>}
\* what is missing is a message during which storage ran out
OnlyItself == \A k \in DOMAIN outs : outs[k][2] # outs[k][1] => (\E j \in fails : Since(k) <= j /\ j <= k)
\* everything else is exact: the object goes on as if nothing had happened
GoesOn == s.o = plain
NewOp == IF Kind = "p" THEN << "pnew", <<3, 1>> >> ELSE << Kind \o "new" >>
Fed(x) == IF Kind = "p" THEN << "pfeed", <<0>>, <<x>> >> ELSE << Kind \o "feed", x >>
Case == << NewOp >> \o Cat([k \in DOMAIN hist |-> IF k \in fails THEN << << "budget", <<Poor>> >>, Fed(hist[k]), << "budget", <<-1>> >> >> ELSE << Fed(hist[k]) >>])
Show == (Print0 /\ Len(hist) = MaxLen /\ fails # {}) => PrintT("BEHAVIOUR " \o ToJson([case |-> Case]))
-----------------------------------------------------------------------------
PParts == << 240, 65, 0, 1, 247, 144, 248 >>
PFew == << 240, 66, 247 >>
K7(f, d) == X!Packet7(2, f, d)
K8(f, i, d) == X!Packet8(2, f, i, d)
C7Parts == << K7(0, <<65, 1>>), K7(1, <<0, 1>>), K7(1, <<67, 1, 2, 3, 4, 5>>), K7(2, <<6, 7>>), K7(3, <<8>>), K7(3, <<>>), <<32, 144, 1, 2>> >>
C8Parts == << K8(0, 5, <<0, 65, 1>>), K8(1, 5, <<129>>), K8(1, 5, <<0, 67, 1, 2, 3>>), K8(2, 5, <<6, 7>>), K8(3, 5, <<8>>), K8(1, 6, <<0, 66, 4>>), K8(3, 6, <<9>>) >>
=============================================================================
