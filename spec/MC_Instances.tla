---------------------------- MODULE MC_Instances ----------------------------
(* Histories of up to three objects of one kind: feeding, resetting, copying,
   assigning, moving, exchanging, dropping in any order.  past[i] is what the
   object in slot i has been through, its sources included; the law says that
   nothing else ever counts.  Every history is printed and replayed.         *)
EXTENDS Instances, TLC, Json
CONSTANTS Kind, Whole, Chunks, MaxLen, Print0
VARIABLES s, hist, outs, past, got
vars == <<s, hist, outs, past, got>>
Used == 1..3
NewArgs(i) == CASE Kind = "p" -> <<i, 1, 3, IF Whole THEN 1 ELSE 0, 5>> [] Kind = "7" -> <<i, 2, 5>> [] Kind = "8" -> <<i, 3, 5>> [] Kind = "j" -> <<i, 5>>
Fresh0 == NewThing(NewArgs(1), <<>>)
Init == /\ s = [NoObjects EXCEPT ![1] = Fresh0] /\ hist = <<>> /\ outs = <<>>
        /\ past = [i \in Used |-> <<>>] /\ got = [i \in Used |-> <<>>]
Lives(i) == s[i].k # "none"
Do(o, a) ==     \* the event, judged by the same step as recorded ones
  LET w == InstStep(s, [o |-> o, i |-> a, r |-> <<>>]) IN
  /\ s' = w.st /\ outs' = Append(outs, w.want) /\ hist' = Append(hist, <<o>> \o a)
Feed(i, c) == /\ Lives(i)
              /\ Do("feed", << <<i, 0>> >> \o (IF Kind = "p" THEN <<Chunks[c]>> ELSE Chunks[c]))
              /\ past' = [past EXCEPT ![i] = Append(@, <<0, c>>)]
              /\ got' = [got EXCEPT ![i] = @ \o ItemSteps(s[i], Chunks[c]).out]
Reset(i) == /\ Lives(i) /\ Do("act", << <<i>>, <<1>> >>)
            /\ past' = [past EXCEPT ![i] = Append(@, <<1, 0>>)] /\ UNCHANGED got
Take(o, i, j, mv) == /\ i # j /\ Lives(j) /\ Lives(i) = (o \in {"assign", "massign"})
                     /\ Do(o, << <<i, j>> >>)
                     /\ past' = [past EXCEPT ![i] = past[j], ![j] = IF mv THEN <<>> ELSE @]
                     /\ got'  = [got EXCEPT ![i] = got[j], ![j] = IF mv THEN <<>> ELSE @]
Exchange(i, j) == /\ i < j /\ Lives(i) /\ Lives(j) /\ Do("exch", << <<i, j>> >>)
                  /\ past' = [past EXCEPT ![i] = past[j], ![j] = past[i]]
                  /\ got'  = [got EXCEPT ![i] = got[j], ![j] = got[i]]
New(i) == /\ ~Lives(i) /\ Do("new", << NewArgs(i) >>)
          /\ past' = [past EXCEPT ![i] = <<>>] /\ got' = [got EXCEPT ![i] = <<>>]
Next == /\ Len(hist) < MaxLen
        /\ \E i \in Used :
             \/ \E c \in DOMAIN Chunks : Feed(i, c)
             \/ Reset(i) \/ (i < 3 /\ New(i))
             \/ \E j \in Used : Take("copy", i, j, FALSE) \/ Take("assign", i, j, FALSE) \/ Take("move", i, j, TRUE) \/ Take("massign", i, j, TRUE) \/ Exchange(i, j)
Spec == Init /\ [][Next]_vars

Alone(ps) == FoldLeft(LAMBDA acc, p : IF p[1] = 1 THEN [acc EXCEPT !.x = OneAct(acc.x, <<1>>)]
                                      ELSE LET r == ItemSteps(acc.x, Chunks[p[2]]) IN [x |-> r.x, out |-> acc.out \o r.out],
                      [x |-> Fresh0, out |-> <<>>], ps)
AsAlone == \A i \in Used : Lives(i) => LET r == Alone(past[i]) IN s[i] = r.x /\ got[i] = r.out
Show == (Print0 /\ Len(hist) = MaxLen) => PrintT("BEHAVIOUR " \o ToJson([case |-> << << "new", NewArgs(1) >> >> \o hist, expect |-> <<<<>>>> \o outs]))

-----------------------------------------------------------------------------
PChunks == << <<144, 1>>, <<2, 3>>, <<240, 1, 2, 3, 4>>, <<5, 6, 247>> >>
C7Chunks == << <<X!Packet7(2, 1, <<67, 1>>)>>, <<X!Packet7(2, 2, <<0, 7>>)>>, <<X!Packet7(2, 3, <<8>>)>> >>
C8Chunks == << <<X!Packet8(2, 1, 5, <<0, 67, 1>>)>>, <<X!Packet8(2, 2, 5, <<6, 7>>)>>, <<X!Packet8(2, 3, 5, <<8>>)>>, <<X!Packet8(2, 1, 6, <<129>>)>> >>
JChunks == << << <<0, 1000000, 100>> >>, << <<1, 1000500, 110>> >>, << <<0, 1050000, 200>>, <<1, 1060000, 250>> >> >>
=============================================================================
