------------------------------ MODULE MC_Sysex ------------------------------
(* Every history of up to MaxLen packets (and resets) over a small packet
   alphabet, for both collectors, against a declarative statement of which
   messages such a history contains; and segmentation over all small lengths. *)
EXTENDS Sysex, TLC, Json
CONSTANTS Eight, MaxLen, Limit, Loads, Print0

Loads7 == << <<>>, <<65>>, <<0>>, <<0, 1>>, <<9, 8, 7, 6, 5, 4>> >>
Loads8 == << <<>>, <<0>>, <<0, 65>>, <<129, 2>>, <<5, 1, 2>>, <<0, 9, 200, 8, 7, 6, 5, 4, 3, 2, 1, 0, 255>> >>
Pkts == IF Eight
        THEN {Packet8(2, f, sid, Loads8[k]) : f \in 0..3, sid \in {0, 7}, k \in Loads}
        ELSE {Packet7(2, f, Loads7[k]) : f \in 0..3, k \in Loads}
Other == { <<32, 144, 60, 1>>, IF Eight THEN <<80, 0, 7>> \o Zeros(13) ELSE <<48, 71, 1, 2, 3, 4, 5, 6>> }
ResetMark == <<0>>

VARIABLES hist, c, outs
vars == <<hist, c, outs>>
C0 == SetLimit(Collector, Limit)
F(x, q) == IF Eight THEN Feed8(x, q) ELSE Feed7(x, q)
Init == hist = <<>> /\ c = C0 /\ outs = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \/ \E q \in Pkts \cup Other :
                LET r == F(c, q) IN hist' = Append(hist, q) /\ c' = r.c /\ outs' = Append(outs, r.out)
           \/ hist' = Append(hist, ResetMark) /\ c' = Shut(c) /\ outs' = Append(outs, <<>>)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Mine(q) == IF Eight THEN Len(q) > 1 /\ Is8(q) ELSE Len(q) > 1 /\ Is7(q)
Load(q) == IF Eight THEN Load8(q) ELSE Load7(q)
Sid(q) == IF Eight THEN q[3] ELSE 0
\* packet j ends the message begun by packet i
Run(i, j) ==
  /\ Mine(hist[i]) /\ Mine(hist[j]) /\ Sid(hist[i]) = Sid(hist[j])
  /\ \/ i = j /\ Fmt(hist[i]) = 0
     \/ /\ i < j /\ Fmt(hist[i]) = 1 /\ Fmt(hist[j]) = 3
        /\ \A k \in (i + 1)..(j - 1) :
             /\ hist[k] # ResetMark
             /\ Mine(hist[k]) => \/ Fmt(hist[k]) = 2
                                 \/ Fmt(hist[k]) = 3 /\ Sid(hist[k]) # Sid(hist[i])
BodyOf(i, j) == Cat([k \in 1..(j - i + 1) |->
                  LET q == hist[i + k - 1] IN
                  IF Mine(q) /\ Sid(q) = Sid(hist[i]) THEN Load(q) ELSE <<>>])
Fits(b) == Limit = 0 \/ Len(b) - (IF Eight THEN 2 ELSE IdBytes7(b)) <= Limit
Expected(j) ==
  IF \E i \in 1..j : Run(i, j)
  THEN LET i == CHOOSE i \in 1..j : Run(i, j)  b == BodyOf(i, j) IN
       IF Fits(b) THEN << IF Eight THEN <<1, Sid(hist[j])>> \o Message8(b) ELSE <<1>> \o Message7(b) >> ELSE <<>>
  ELSE <<>>
DeliversExactly == \A j \in DOMAIN hist : outs[j] = Expected(j)

\* segmentation: framing, fill, content and reassembly, for all small lengths
Ids == { <<65, 0, 0>>, <<0, 32, 41>>, <<0, 0, 1>>, <<0, 1, 0>>, <<127, 0, 0>> }
SegmentsGood ==
  \A id \in Ids : \A n \in 0..30 :
    LET d  == [k \in 1..n |-> (k * 37) % (IF Eight THEN 256 ELSE 128)]
        ps == IF Eight THEN Segments8(5, 9, id, d) ELSE Segments7(5, id, d)
        N  == Len(ps)
        cap == IF Eight THEN 13 ELSE 6 IN
    /\ \A k \in 1..N : Mine(ps[k]) /\ Hi(ps[k][1]) = (IF Eight THEN 5 ELSE 3) /\ Lo(ps[k][1]) = 5
    /\ IF N = 1 THEN Fmt(ps[1]) = 0
       ELSE Fmt(ps[1]) = 1 /\ Fmt(ps[N]) = 3 /\ \A k \in 2..(N - 1) : Fmt(ps[k]) = 2
    /\ \A k \in 1..(N - 1) : Len(Load(ps[k])) = cap
    /\ N > 1 => Len(Load(ps[N])) > 0
    /\ Cat([k \in 1..N |-> Load(ps[k])]) = (IF Eight THEN Body8(id, d) ELSE Body7(id, d))
    /\ Feeds(F, Collector, ps).out = << (IF Eight THEN <<1, 9>> ELSE <<1>>) \o id \o d >>
ASSUME SegmentsGood

-----------------------------------------------------------------------------
Sfx == IF Eight THEN "8" ELSE "7"
Behaviour ==
  [ case |-> << << "new" \o Sfx >>, << "lim" \o Sfx, <<Limit>> >> >>
             \o [k \in DOMAIN hist |-> IF hist[k] = ResetMark THEN << "reset" \o Sfx >> ELSE << "feed" \o Sfx, hist[k] >>],
    expect |-> << <<>>, <<>> >> \o outs ]
Show == (Print0 /\ Len(hist) = MaxLen) => PrintT("BEHAVIOUR " \o ToJson(Behaviour))
=============================================================================
