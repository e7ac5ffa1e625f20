----------------------------- MODULE MC_JrClock -----------------------------
(* A sender reading its clock at times of all kinds: inside a tick, across the
   wrap of the timestamps, after hours of silence.                           *)
EXTENDS JrClock, TLC, Json
CONSTANTS MaxLen, Steps, Print0        \* Steps: <<hours, ticks, parts of a tick>>
SmallSteps == { <<0,0,0>>, <<0,0,1>>, <<0,0,3>>, <<0,1,0>>, <<0,7,2>>, <<0,8,0>>, <<1,0,0>>, <<3,5,1>> }   \* 8 timestamps, 11 ticks an hour
RealSteps == { <<0,0,0>>, <<0,0,16000>>, <<0,1,0>>, <<0,32768,31999>>, <<0,65535,0>>, <<5,3,1>> }
VARIABLES t, s, hist
vars == <<t, s, hist>>
Later(u, d) == LET n == u.n + d[3] IN Time(u.h + d[1], u.k + d[2] + (n \div TickLen), n % TickLen)
Init == t = Time(0, 0, 0) /\ s = Unread /\ hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \E d \in Steps, kind \in {"now", "emit"} :
             LET u == Later(t, d) IN
             /\ t' = u /\ s' = Read(s, u)
             /\ hist' = Append(hist, [k |-> kind, t |-> u, step |-> d, first |-> SinceFirst(s, u), prev |-> SincePrev(s, u)])
Spec == Init /\ [][Next]_vars

\* the readings count the ticks: differences are those of the times, modulo the range
Ticks(d) == d[1] * HourTicks + d[2]
Counts == \A k \in 2..Len(hist) :
  LET p == hist[k - 1].t
      whole == Ticks(hist[k].step) + ((p.n + hist[k].step[3]) \div TickLen) IN
  hist[k].prev = whole % Modulus
Adds == \A k \in 2..Len(hist) : hist[k].first = (hist[k - 1].first + hist[k].prev) % Modulus
StandsStill == \A k \in 2..Len(hist) : (Ticks(hist[k].step) = 0 /\ hist[k - 1].t.n + hist[k].step[3] < TickLen) => hist[k].prev = 0
Inverse == \A a, b \in {0, 1, Modulus \div 2, Modulus - 1} : (Since(a, b) + Since(b, a)) \in {0, Modulus}
Behaviour ==
  [ case |-> [k \in DOMAIN hist |-> << hist[k].k, <<hist[k].t.h, hist[k].t.k, hist[k].t.n>> >> \o
                                    (IF hist[k].k = "emit" THEN << <<k % 2>> >> ELSE <<>>)],
    expect |-> [k \in DOMAIN hist |-> IF hist[k].k = "emit" THEN << Header(k % 2 = 1), <<hist[k].first, hist[k].first>> >>
                                      ELSE << <<hist[k].first, hist[k].prev>> >>] ]
Show == (Print0 /\ Len(hist) = MaxLen) => PrintT("BEHAVIOUR " \o ToJson(Behaviour))
=============================================================================
