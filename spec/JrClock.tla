------------------------------- MODULE JrClock -------------------------------
(* The sender side of jitter reduction: a clock that counts ticks and is read
   as a 16 bit timestamp, and the messages that carry the readings.  A time is
   [h, k, n]: whole hours, whole ticks and what is left of a tick, from an
   origin that is a whole number of ticks after the clock's own.             *)
EXTENDS Integers, Sequences
CONSTANTS Modulus, HourTicks, TickLen
Time(h, k, n) == [h |-> h, k |-> k, n |-> n]
Count(t) == ((t.h * (HourTicks % Modulus)) + (t.k % Modulus) + (t.n \div TickLen)) % Modulus
Since(a, b) == (a - b + Modulus) % Modulus            \* ticks from timestamp b to timestamp a

Unread == [has |-> FALSE, first |-> 0, prev |-> 0]
Read(s, t) == [has |-> TRUE, first |-> IF s.has THEN s.first ELSE Count(t), prev |-> Count(t)]
SinceFirst(s, t) == IF s.has THEN Since(Count(t), s.first) ELSE 0
SincePrev(s, t)  == IF s.has THEN Since(Count(t), s.prev) ELSE 0
\* utility messages of one word: type and group byte, status byte
Header(stamp) == << 0, IF stamp THEN 32 ELSE 16, 1 >>
=============================================================================
