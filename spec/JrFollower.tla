----------------------------- MODULE JrFollower -----------------------------
(* The receiver side of jitter reduction: it follows the sender's clock from
   JR clock messages and schedules timestamped messages.  Times are integers
   in some unit; a timestamp tick lasts Tick units and timestamps wrap at
   Modulus.  The code: unit 200 ns, Tick 160 (32 us), Modulus 65536, initial
   offset 10000 (2 ms).                                                      *)
EXTENDS Integers
CONSTANTS Tick, Modulus, Offset0

NoClock == [has |-> FALSE, ts |-> 0, clock |-> 0, msg |-> 0, jitter |-> 0, offset |-> Offset0]
MaxOf(a, b) == IF a > b THEN a ELSE b
Elapsed(a, b) == ((a - b + Modulus) % Modulus) * Tick   \* from timestamp b to timestamp a

Clock(s, t, ts) ==
  IF ~s.has THEN [s EXCEPT !.has = TRUE, !.ts = ts, !.clock = t, !.msg = t]
  ELSE LET expected == s.clock + Elapsed(ts, s.ts)
           late == t - expected
           j == IF late < 0 THEN s.jitter - late ELSE MaxOf(s.jitter, late)
           s1 == IF late < 0        \* early: the sender's clock is ahead of our estimate
                 THEN [s EXCEPT !.clock = t, !.msg = MaxOf(s.msg, t)]
                 ELSE [s EXCEPT !.clock = expected, !.msg = t]
       IN  [s1 EXCEPT !.ts = ts, !.jitter = j, 
                          !.offset = IF j > s.jitter THEN MaxOf(s.offset, (j * 12) \div 10) ELSE s.offset]

Schedule(s, t, ts) ==
  [s EXCEPT !.msg = IF s.has THEN MaxOf(s.msg, s.clock + Elapsed(ts, s.ts)) ELSE t]
DueTime(s) == s.msg + s.offset
SetOffset(s, o) == [s EXCEPT !.offset = o]
=============================================================================
