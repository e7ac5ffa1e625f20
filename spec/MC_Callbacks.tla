---------------------------- MODULE MC_Callbacks ----------------------------
(* Histories of a parser or collector whose callback acts on it or throws:
   chunks fed, and in between what the callback is to do at its next or next
   but one call.  The laws say what that means in terms of undisturbed
   objects; every history is printed and replayed into the code.             *)
EXTENDS Callbacks, TLC, Json
CONSTANTS Kind, Whole, Chunks, Actions, MaxLen, Print0
VARIABLES s, hist, outs, flat
vars == <<s, hist, outs, flat>>
\* flat: the same history with the callback's actions spelled out: <<0, item>> or <<1, action>>
G0 == 3
Init == /\ s = [ApiStart EXCEPT !.p = B!Parser(G0, Whole, TRUE)]
        /\ hist = <<>> /\ outs = <<>> /\ flat = <<>>

Calls(o, xs) == Len(Items(Kind, Feeding(o, 0, <<>>, FALSE), xs).with)
\* the items up to and including the one that fires
Until(o, xs, n) == LET M == {m \in 1..Len(xs) : Calls(o, SubSeq(xs, 1, m)) >= n} IN
                   IF M = {} THEN Len(xs) + 1 ELSE CHOOSE m \in M : \A j \in M : m <= j
Tagged(t, xs) == [k \in DOMAIN xs |-> <<t, xs[k]>>]
Feeding1(c) ==
  LET xs == Chunks[c]
      f  == Items(Kind, Feeding(Obj(s, Kind), s.wait, s.acts, FALSE), xs)
      m  == IF s.wait = 0 THEN Len(xs) + 1 ELSE Until(Obj(s, Kind), xs, s.wait)
  IN /\ s' = [Put(s, Kind, f.o) EXCEPT !.wait = f.wait, !.acts = f.acts]
     /\ hist' = Append(hist, IF Kind = "p" THEN << "pfeed", << (Len(hist) + c) % 3 >>, xs >> ELSE << Kind \o "feed" >> \o xs)
     /\ outs' = Append(outs, f.with \o (IF f.gone THEN << <<9>> >> ELSE <<>>))
     /\ flat' = flat \o (IF m > Len(xs) THEN Tagged(0, xs)
                         ELSE Tagged(0, SubSeq(xs, 1, m)) \o Tagged(1, s.acts) \o (IF Throws(s.acts) THEN <<>> ELSE Tagged(0, SubSeq(xs, m + 1, Len(xs)))))
Arm(n, as) == /\ s.wait = 0
              /\ s' = [s EXCEPT !.wait = n, !.acts = as]
              /\ hist' = Append(hist, << "arm", <<n>> >> \o as)
              /\ outs' = Append(outs, <<>>) /\ UNCHANGED flat
Next == /\ Len(hist) < MaxLen
        /\ \/ \E c \in DOMAIN Chunks : Feeding1(c)
           \/ Len(hist) < MaxLen - 1 /\ \E n \in 1..2, as \in Actions : Arm(n, as)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Delivered == SelectSeq(Cat(outs), LAMBDA i : i # <<9>>)
Start0 == Obj([ApiStart EXCEPT !.p = B!Parser(G0, Whole, TRUE)], Kind)
RunFlat(o, fs) == FoldLeft(LAMBDA acc, x : IF x[1] = 1 THEN [acc EXCEPT !.o = Act(Kind, acc.o, x[2])]
                                           ELSE LET r == One(Kind, acc.o, x[2]) IN [o |-> r.o, out |-> acc.out \o r.out],
                           [o |-> o, out |-> <<>>], fs)
\* an action inside a callback is an action after that delivery; throwing is stopping
AsAfterwards == LET r == RunFlat(Start0, flat) IN r.out = Delivered /\ r.o = Obj(s, Kind)
\* what arrives after a reset inside a callback owes nothing to what came before
Marks(a) == {k \in DOMAIN flat : flat[k] = <<1, a>>}
Blank(o) == IF Kind = "p" THEN [B!Parser(o.grp, o.whole, o.on) EXCEPT !.on = o.on] ELSE [X!Collector EXCEPT !.lim = o.lim]
StartsOver == \A k \in Marks(<<1>>) :
  LET before == RunFlat(Start0, SubSeq(flat, 1, k))
      after  == SubSeq(flat, k + 1, Len(flat)) IN
  Delivered = before.out \o RunFlat(Blank(before.o), after).out
Quiet == \A k \in Marks(<<2, 0>>) : (\A j \in Marks(<<2, 1>>) : j < k) => Len(Delivered) = Len(RunFlat(Start0, SubSeq(flat, 1, k)).out)
\* a collector owes nothing to what happened in its callback, unless the limit was changed
Items0 == LET fs == SelectSeq(flat, LAMBDA x : x[1] = 0) IN [k \in DOMAIN fs |-> fs[k][2]]
Unmoved == (Kind # "p" /\ \A k \in DOMAIN flat : flat[k][1] = 1 => flat[k][2][1] \in {1, 4})
           => Delivered = Items(Kind, Feeding(Start0, 0, <<>>, FALSE), Items0).with
Case == << IF Kind = "p" THEN << "pnew", << G0, IF Whole THEN 1 ELSE 0 >> >> ELSE << Kind \o "new" >> >> \o hist
Show == (Print0 /\ Len(hist) = MaxLen) => PrintT("BEHAVIOUR " \o ToJson([case |-> Case, expect |-> <<<<>>>> \o outs]))

-----------------------------------------------------------------------------
PChunks == << <<144, 1, 2>>, <<5>>, <<240, 1, 2, 3, 4, 5>>, <<6, 7, 8, 9, 10, 11, 12>>, <<13, 247>>, <<247>>, <<246>>, <<242, 1, 2>>, <<248>>, <<240, 1, 247, 193, 4, 5>> >>
PActs == { << <<1>> >>, << <<4>> >>, << <<2, 0>> >>, << <<1>>, <<4>> >>, << <<2, 0>>, <<4>> >>, << <<1>>, <<2, 0>> >> }
WChunks == << <<144, 1, 2>>, <<5>>, <<240, 1, 2>>, <<240, 0, 1>>, <<3>>, <<247>>, <<246>>, <<248>>, <<240, 65, 1, 247, 193, 4, 5>> >>
WActs == PActs \cup { << <<3, 9>> >>, << <<3, 9>>, <<1>> >>, << <<3, 9>>, <<4>> >> }
K7(f, d) == X!Packet7(2, f, d)
K8(f, i, d) == X!Packet8(2, f, i, d)
C7Chunks == << <<K7(0, <<65, 1>>)>>, <<K7(0, <<0, 1, 2, 3>>), K7(0, <<66>>)>>, <<K7(1, <<67, 1, 2, 3, 4, 5>>)>>, <<K7(1, <<0>>)>>, <<K7(2, <<6, 7>>)>>, <<K7(3, <<8>>)>>, <<K7(3, <<9>>), K7(1, <<68>>), K7(3, <<1>>)>>, << <<32, 144, 1, 2>> >> >>
C8Chunks == << <<K8(0, 5, <<0, 65, 1>>)>>, <<K8(0, 5, <<129, 2, 3>>), K8(0, 6, <<0, 66>>)>>, <<K8(1, 5, <<0, 67, 1, 2, 3>>)>>, <<K8(1, 5, <<130>>)>>, <<K8(2, 5, <<6, 7>>)>>, <<K8(3, 5, <<8>>)>>, <<K8(3, 5, <<9>>), K8(1, 6, <<0, 68>>), K8(3, 6, <<1>>)>>, <<K8(3, 6, <<9>>)>> >>
CActs == { << <<1>> >>, << <<4>> >>, << <<1>>, <<4>> >>, << <<5, 2>> >>, << <<5, 2>>, <<4>> >> }
=============================================================================
