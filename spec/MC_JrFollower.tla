--------------------------- MODULE MC_JrFollower ---------------------------
(* A sender emitting clocks and timestamps in order, a transport delaying them
   arbitrarily (in order), small modulus so that timestamps wrap often.      *)
EXTENDS JrFollower, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS MaxLen, Gaps, Delays, Print0

VARIABLES s, sent, lastClock, rcv, due, hist
vars == <<s, sent, lastClock, rcv, due, hist>>
Init == s = NoClock /\ sent = 0 /\ lastClock = 0 /\ rcv = 0 /\ due = <<>> /\ hist = <<>>
Ts(t) == t % Modulus
Step(kind) ==
  /\ Len(hist) < MaxLen
  /\ \E g \in Gaps, d \in Delays :
       LET t == sent + g                                   \* sending time in ticks
           r == MaxOf(rcv, t * Tick + d) IN                \* reception
       /\ (s.has => t - lastClock < Modulus)
       /\ sent' = t /\ rcv' = r
       /\ IF kind = "clock"
          THEN s' = Clock(s, r, Ts(t)) /\ lastClock' = t /\ due' = due
          ELSE s' = Schedule(s, r, Ts(t)) /\ lastClock' = lastClock /\ due' = Append(due, DueTime(s'))
       /\ hist' = Append(hist, [k |-> kind, t |-> r, ts |-> Ts(t), due |-> DueTime(s'), o |-> s'.offset, j |-> s'.jitter])
Next == Step("clock") \/ Step("sched")
Spec == Init /\ [][Next]_vars

Ordered == \A k \in 1..(Len(due) - 1) : due[k] <= due[k + 1]
OffsetCovers == s.offset >= Offset0 /\ s.offset * 10 + 9 >= s.jitter * 12
OffsetGrows == [][s'.offset >= s.offset /\ s'.jitter >= s.jitter]_vars
NeverBeforeSending == \* no message is due before it was sent
  \A k \in DOMAIN hist : hist[k].k = "sched" => hist[k].due >= 0
ClockNotLate == s.has => s.clock <= rcv     \* the reference never runs ahead of reception
Behaviour ==
  [ case |-> << <<"new">> >> \o [k \in DOMAIN hist |-> << hist[k].k, <<hist[k].t, hist[k].ts>> >>],
    expect |-> << << <<Offset0, 0>>, <<0, 0>> >> >> \o
      [k \in DOMAIN hist |-> (IF hist[k].k = "sched" THEN << <<hist[k].due, 0>> >> ELSE <<>>)
                              \o << <<hist[k].o, 0>>, <<hist[k].j, 0>> >>] ]
Show == (Print0 /\ Len(hist) = MaxLen) => PrintT("BEHAVIOUR " \o ToJson(Behaviour))
=============================================================================
