----------------------------- MODULE TraceStore -----------------------------
EXTENDS TraceBase
S == INSTANCE Storage WITH Keep <- 16384, Slack <- 4096
NoObjects == [k \in 0..2 |-> S!NoObject]
TheStart == [env |-> 0, c |-> S!NoHolder, whole |-> FALSE, on |-> FALSE, o |-> NoObjects]

RECURSIVE Sum(_, _)
Sum(q, k) == IF k > Len(q) THEN 0 ELSE q[k] + Sum(q, k + 1)
\* data that must be, and storage that may be, in resource w
Least(s, w) == (IF w = 0 THEN s.c.h ELSE 0) + Sum([k \in 1..3 |-> IF s.o[k - 1].has /\ s.o[k - 1].where = w THEN s.o[k - 1].n ELSE 0], 1)
Most(s, w) == (IF w = 0 /\ s.c.kind # "none" THEN s.c.ub + 1024 ELSE 0)
              + Sum([k \in 1..3 |-> IF s.o[k - 1].has /\ s.o[k - 1].where = w THEN s.o[k - 1].ub ELSE 0], 1)
              + (IF s.env = 0 /\ \E k \in 0..2 : s.o[k].has THEN 1024 ELSE 0)
\* s after the event; block: the largest block it may have taken; more: the remaining results
After(s, ev, block, more) ==
  LET r == ev.r
      fine == /\ Len(r) = 2 + Len(more)
              /\ \A w \in 0..2 : r[1][w + 1] >= Least(s, w) /\ r[1][w + 1] <= Most(s, w)
              /\ r[2][1] <= block /\ r[2][3] = 0 /\ r[2][4] <= 4096
              /\ \A k \in 1..Len(more) : r[2 + k] = more[k]
  IN  [st |-> [s EXCEPT !.c.peak = 0, !.c.out = 0], ok |-> fine,
       want |-> [least |-> [w \in 0..2 |-> Least(s, w)], most |-> [w \in 0..2 |-> Most(s, w)], block |-> block, wrong |-> 0, more |-> more]]
Held(s, ev, c, more) == After([s EXCEPT !.c = c], ev, S!Max2(c.ub, c.peak) + 1024, more)
Obj(s, ev, k, o, more) == After([s EXCEPT !.o[k] = o], ev, o.ub + 1024, more)
Width == << 1, 2, 4, 5, 10, 11 >>

TheStep(s, ev) ==
  LET a == ev.i
      x == IF Len(a) > 0 THEN a[1] ELSE <<>>
      c == s.c IN
  CASE ev.o = "env"     -> [st |-> [s EXCEPT !.env = ev.r[1][1]], ok |-> TRUE, want |-> <<>>]
    [] ev.o = "c.new"   -> Held(s, ev, [S!NoHolder EXCEPT !.kind = IF x[1] = 7 THEN "c7" ELSE "c8"], <<>>)
    [] ev.o = "c.lim"   -> Held(s, ev, S!Limit(c, x[1]), <<>>)
    [] ev.o = "c.reset" -> Held(s, ev, S!Cleared(c), <<>>)
    [] ev.o \in {"c.drop", "p.drop"} -> After([s EXCEPT !.c = S!NoHolder], ev, 1024, <<>>)
    [] ev.o = "c.feed"  -> LET n == S!CollectorFeed(c, x[1], x[2] * x[3]) IN Held(s, ev, n, << <<n.out>> >>)
    [] ev.o = "p.new"   -> Held([s EXCEPT !.whole = x[1] = 1, !.on = x[2] = 1], ev, [S!NoHolder EXCEPT !.kind = "p"], <<>>)
    [] ev.o = "p.on"    -> Held([s EXCEPT !.on = x[1] = 1], ev, c, <<>>)
    [] ev.o = "p.reset" -> Held(s, ev, S!Cleared(c), <<>>)
    [] ev.o = "p.feed"  -> LET n == S!ParserByte(c, x[1], x[2], s.whole, s.on) IN Held(s, ev, n, << <<n.out>> >>)
    [] ev.o = "s.new"   -> LET n == IF x[3] \in {0, 1} THEN 0 ELSE IF x[3] = 4 THEN 5 ELSE x[4]
                               o == S!Object(n, IF x[3] = 1 THEN x[4] ELSE 0, IF s.env = 2 THEN x[2] ELSE 0) IN Obj(s, ev, x[1], o, << <<n>> >>)
    [] ev.o = "s.add"   -> LET o == S!Sized(s.o[x[1]], s.o[x[1]].n + Width[x[2] + 1] * x[3])
                               v == Obj(s, ev, x[1], o, << <<o.n>> >>) IN
                           \* what was asked for in advance is not taken again
                           [v EXCEPT !.ok = @ /\ (o.n <= o.cap => ev.r[2][2] = 0)]
    [] ev.o = "s.clear" -> Obj(s, ev, x[1], S!Emptied(s.o[x[1]]), <<>>)
    [] ev.o = "s.copy"  -> Obj(s, ev, x[2], S!Object(s.o[x[1]].n, 0, 0), <<>>)
    [] ev.o = "s.move"  -> Obj([s EXCEPT !.o[x[1]] = S!NoObject], ev, x[2], s.o[x[1]], <<>>)
    [] ev.o = "s.assign" -> Obj(s, ev, x[2], [S!Sized(s.o[x[2]], s.o[x[1]].n) EXCEPT !.cap = 0], <<>>)
    [] ev.o = "s.drop"  -> After([s EXCEPT !.o[x[1]] = S!NoObject], ev, 1024, <<>>)
=============================================================================
