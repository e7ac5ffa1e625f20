------------------------------- MODULE Storage -------------------------------
(* How much storage the SysEx data may take, and where.  A holder (collector,
   parser, SysEx object) has h bytes of data and at most ub bytes of storage:
   ub follows the data with a factor and some slack, the limit where one is
   set, and falls to Keep when the data is cleared.                          *)
EXTENDS Integers, Sequences
CONSTANTS Keep, Slack
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

NoHolder == [kind |-> "none", on |-> FALSE, skip |-> FALSE, ids |-> 0, h |-> 0, lim |-> 0, ub |-> 0, peak |-> 0, out |-> 0]
Grown(c) == LET u == Max2(c.ub, IF c.lim > 0 THEN c.lim + Slack ELSE 4 * c.h + Slack) IN [c EXCEPT !.ub = u, !.peak = Max2(@, u)]
Cleared(c) == [c EXCEPT !.on = FALSE, !.ids = 0, !.h = 0, !.ub = Min2(@, Keep + Slack)]
Fresh(c) == [c EXCEPT !.out = 0, !.peak = @]
IdBytes(c) == IF c.kind = "c8" THEN 2 ELSE 1

\* k bytes of payload while a message is open
Take(c, k) ==
  LET i == Min2(k, IdBytes(c) - c.ids)
      d == k - i IN
  IF c.lim > 0 /\ d > 0 /\ c.h + d > c.lim THEN Cleared(Grown(c))        \* too long: dropped
  ELSE Grown([c EXCEPT !.ids = @ + i, !.h = @ + d])
\* format: 0 complete, 1 start, 2 continue, 3 end
CollectorFeed(c, fmt, k) ==
  LET o == IF fmt \in {0, 1} THEN [(IF c.on THEN Cleared(c) ELSE c) EXCEPT !.on = TRUE, !.ids = 0, !.h = 0] ELSE c IN
  IF ~o.on THEN Cleared(o)
  ELSE LET t == Take(o, k) IN
       IF t.on /\ fmt \in {0, 3} THEN [Cleared(t) EXCEPT !.out = @ + 1] ELSE t
Limit(c, l) == LET d == [c EXCEPT !.lim = l] IN IF l > 0 THEN Grown(d) ELSE d

\* parser: skip says that the data is not collected (packets only, or disabled)
ParserByte(c, b, n, whole, enabled) ==
  IF b >= 248 THEN c
  ELSE IF b = 240 THEN Grown([Cleared(c) EXCEPT !.on = TRUE, !.skip = ~(whole /\ enabled)])
  ELSE IF b = 247 THEN (IF c.on THEN [Cleared(c) EXCEPT !.out = @ + (IF enabled /\ ~c.skip /\ c.ids > 0 THEN 1 ELSE 0)] ELSE c)
  ELSE IF b >= 128 THEN [c EXCEPT !.on = FALSE, !.h = 0, !.ids = 0]
  ELSE IF c.on /\ ~c.skip THEN Take(c, n) ELSE c

\* objects
NoObject == [has |-> FALSE, n |-> 0, cap |-> 0, where |-> 0, ub |-> 0]
Sized(o, n) == [o EXCEPT !.has = TRUE, !.n = n, !.ub = Max2(@, Max2(4 * n, o.cap) + Slack)]
Object(n, cap, where) == Sized([NoObject EXCEPT !.cap = cap, !.where = where], n)
Emptied(o) == [o EXCEPT !.n = 0, !.cap = 0, !.ub = Min2(@, Keep + Slack)]
=============================================================================
