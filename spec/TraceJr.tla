------------------------------ MODULE TraceJr ------------------------------
(* Two units of time: 200 ns for long histories, 1 ns for exact ones.  In the
   latter a nanosecond of rounding in the offset is allowed.                 *)
EXTENDS TraceBase
J == INSTANCE JrFollower WITH Tick <- 160, Modulus <- 65536, Offset0 <- 10000
N == INSTANCE JrFollower WITH Tick <- 32000, Modulus <- 65536, Offset0 <- 2000000
K == INSTANCE JrClock WITH Modulus <- 65536, HourTicks <- 112500000, TickLen <- 32000
TheStart == [fine |-> FALSE, f |-> J!NoClock, c |-> K!Unread]
View(f) == << <<f.offset, 0>>, <<f.jitter, 0>> >>
Ans(s, ev, out) == [st |-> s, ok |-> ev.r = out, want |-> out]
Near(s, n, o) == s.fine /\ n.offset # s.f.offset /\ o - n.offset \in {-1, 0, 1}
\* the follower goes on to n, its time due shown or not
To(s, ev, n, due) ==
  LET k == Len(ev.r)
      m == IF k > 1 /\ Near(s, n, ev.r[k - 1][1]) THEN [n EXCEPT !.offset = ev.r[k - 1][1]] ELSE n
  IN  Ans([s EXCEPT !.f = m], ev, (IF due THEN << <<J!DueTime(m), 0>> >> ELSE <<>>) \o View(m))
TheStep(s, ev) ==
  LET a == ev.i
      t == IF ev.o \in {"now", "emit"} THEN K!Time(a[1][1], a[1][2], a[1][3]) ELSE K!Time(0, 0, 0) IN
  CASE ev.o = "new"   -> To([s EXCEPT !.fine = FALSE], ev, J!NoClock, FALSE)
    [] ev.o = "nnew"  -> To([s EXCEPT !.fine = TRUE], ev, N!NoClock, FALSE)
    [] ev.o = "reset" -> To(s, ev, IF s.fine THEN N!NoClock ELSE J!NoClock, FALSE)
    [] ev.o = "clock" -> To(s, ev, IF s.fine THEN N!Clock(s.f, a[1][1], a[1][2]) ELSE J!Clock(s.f, a[1][1], a[1][2]), FALSE)
    [] ev.o = "sched" -> To(s, ev, IF s.fine THEN N!Schedule(s.f, a[1][1], a[1][2]) ELSE J!Schedule(s.f, a[1][1], a[1][2]), TRUE)
    [] ev.o = "offset" -> To(s, ev, J!SetOffset(s.f, a[1][1]), FALSE)
    [] ev.o = "diff"  -> Ans(s, ev, << << K!Since(a[1][1], a[1][2]), IF a[1][1] = a[1][2] THEN 1 ELSE 0,
                                          IF a[1][1] # a[1][2] THEN 1 ELSE 0 >> >>)
    [] ev.o = "now"   -> Ans([s EXCEPT !.c = K!Read(s.c, t)], ev, << << K!SinceFirst(s.c, t), K!SincePrev(s.c, t) >> >>)
    [] ev.o = "emit"  -> LET d == K!SinceFirst(s.c, t) IN
                         Ans([s EXCEPT !.c = K!Read(s.c, t)], ev, << K!Header(a[2][1] = 1), << d, d >> >>)
=============================================================================
