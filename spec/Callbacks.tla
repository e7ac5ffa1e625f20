------------------------------ MODULE Callbacks -----------------------------
(* What may happen while the parser or a collector is at work: its callback
   may act on the very object that calls it, or throw; and the storage for
   SysEx data may run out (an allocation throws).  Either way the object goes
   on as the plain specifications (ByteStream, Sysex) say:
     - an action inside a callback counts as made right after that delivery;
     - a callback that throws counts as one that returned, but what the caller
       had still to feed is not fed;
     - when storage runs out, the message under way is lost or delivered whole,
       and nothing else is touched.
   Kinds of object: "p" parser, "7" and "8" the collectors.                   *)
EXTENDS Bytes
B == INSTANCE ByteStream
X == INSTANCE Sysex

One(k, o, x) ==    \* one byte or packet on an undisturbed object
  CASE k = "p" -> LET r == B!Feed(o, x) IN [o |-> r.p, out |-> r.out]
    [] k = "7" -> LET r == X!Feed7(o, x) IN [o |-> r.c, out |-> r.out]
    [] k = "8" -> LET r == X!Feed8(o, x) IN [o |-> r.c, out |-> r.out]

\* actions: <<1>> reset, <<2, e>> enable callbacks, <<3, g>> set group, <<4>> throw, <<5, n>> set limit
Act(k, o, a) ==
  CASE a[1] = 1 /\ k = "p" -> B!Reset(o)
    [] a[1] = 1 /\ k # "p" -> X!Shut(o)
    [] a[1] = 2 /\ k = "p" -> B!SetEnabled(o, a[2] = 1)
    [] a[1] = 3 /\ k = "p" -> B!SetGroup(o, a[2])
    [] a[1] = 5 /\ k # "p" -> X!SetLimit(o, a[2])
    [] OTHER -> o
Acts(k, o, as) == FoldLeft(LAMBDA q, a : Act(k, q, a), o, as)
Throws(as) == \E j \in DOMAIN as : as[j][1] = 4

-----------------------------------------------------------------------------
(* A message in doubt: an allocation failed while it was taken in.            *)
SysexPacket(k, x) == IF k = "7" THEN X!Is7(x) ELSE X!Is8(x)
Begins(k, x)   == IF k = "p" THEN x = 240 ELSE SysexPacket(k, x) /\ X!Fmt(x) \in {0, 1}
UnderWay(k, o) == IF k = "p" THEN o.kind = "sysex" /\ o.whole ELSE o.open
\* may this item need storage?
Stores(k, o, x) ==
  IF k = "p" THEN ~B!IsRealtime(x) /\ (UnderWay(k, o) \/ UnderWay(k, One(k, o, x).o))
  ELSE SysexPacket(k, x) /\ (Begins(k, x) \/ (o.open /\ (k = "7" \/ o.sid = x[3])))
IsMessage(k, item) == k # "p" \/ item[1] = 2

(* Feeding: o the object, wait/acts what the callback will do and when, gone
   whether it has thrown, doubt whether the message under way is in doubt;
   with/less the deliveries with and without a doubtful message.              *)
Feeding(o, wait, acts, doubt) == [o |-> o, wait |-> wait, acts |-> acts, doubt |-> doubt, gone |-> FALSE, with |-> <<>>, less |-> <<>>]
Item(k, f, x) ==
  IF f.gone THEN f ELSE
  LET r     == One(k, f.o, x)
      out   == r.out
      query == f.doubt /\ ~Begins(k, x) /\ out # <<>> /\ IsMessage(k, out[1])
      fire  == out # <<>> /\ f.wait = 1
  IN [ o     |-> IF fire THEN Acts(k, r.o, f.acts) ELSE r.o,
       wait  |-> IF out # <<>> /\ f.wait > 0 THEN f.wait - 1 ELSE f.wait,
       acts  |-> IF fire THEN <<>> ELSE f.acts,
       doubt |-> f.doubt /\ ~Begins(k, x) /\ UnderWay(k, r.o),
       gone  |-> fire /\ Throws(f.acts),
       with  |-> f.with \o out,
       less  |-> f.less \o (IF query THEN <<>> ELSE out) ]
Items(k, f, xs) == FoldLeft(LAMBDA g, x : Item(k, g, x), f, xs)
\* an item whose storage could not be had: nothing is delivered
Starved(k, f, x) == LET r == One(k, f.o, x) IN [f EXCEPT !.o = r.o, !.doubt = UnderWay(k, r.o)]

-----------------------------------------------------------------------------
(* Calls.  In a result <<9>> says that the callback's exception arrived at the
   caller and <<8, n>> that storage ran out at the n-th item.                 *)
ApiStart == [ p |-> B!Parser(0, FALSE, TRUE), c7 |-> X!Collector, c8 |-> X!Collector, wait |-> 0, acts |-> <<>>, doubt |-> [k \in {"p", "7", "8"} |-> FALSE] ]
Obj(s, k) == CASE k = "p" -> s.p [] k = "7" -> s.c7 [] k = "8" -> s.c8
Put(s, k, o) == CASE k = "p" -> [s EXCEPT !.p = o] [] k = "7" -> [s EXCEPT !.c7 = o] [] k = "8" -> [s EXCEPT !.c8 = o]
Fresh(s, k, o) == [Put(s, k, o) EXCEPT !.doubt[k] = FALSE]
Same(s, ev) == [st |-> s, ok |-> ev.r = <<>>, want |-> <<>>]

FeedStep(s, ev, k, xs) ==
  LET r    == ev.r
      n    == Len(r)
      hurt == n > 0 /\ r[n][1] = 8
      at   == IF hurt THEN r[n][2] ELSE Len(xs) + 1
      f0   == Items(k, Feeding(Obj(s, k), s.wait, s.acts, s.doubt[k]), IF hurt THEN SubSeq(xs, 1, at - 1) ELSE xs)
      f    == IF hurt /\ ~f0.gone /\ at <= Len(xs) THEN Starved(k, f0, xs[at]) ELSE f0
      tail == IF hurt THEN << r[n] >> ELSE IF f.gone THEN << <<9>> >> ELSE <<>>
  IN [ st   |-> [Put(s, k, f.o) EXCEPT !.wait = f.wait, !.acts = f.acts, !.doubt[k] = f.doubt],
       ok   |-> /\ hurt => (at <= Len(xs) /\ ~f0.gone /\ Stores(k, f0.o, xs[at]))
                /\ r = f.with \o tail \/ r = f.less \o tail,
       want |-> f.with \o tail ]

ApiStep(s, ev) ==
  LET a == ev.i  k == SubSeq(ev.o, 1, 1)  c == SubSeq(ev.o, 2, Len(ev.o)) IN
  CASE ev.o = "arm"    -> Same([s EXCEPT !.wait = a[1][1], !.acts = Tail(a)], ev)
    [] ev.o = "budget" -> Same(s, ev)
    [] ev.o = "pnew"   -> Same(Fresh(s, "p", B!Parser(a[1][1], a[1][2] = 1, TRUE)), ev)
    [] c = "new"       -> Same(Fresh(s, k, X!Collector), ev)
    [] ev.o = "pfeed"  -> FeedStep(s, ev, "p", a[2])
    [] c = "feed"      -> FeedStep(s, ev, k, a)
    [] c = "act"       -> Same([Put(s, k, Acts(k, Obj(s, k), a)) EXCEPT !.doubt[k] = @ /\ UnderWay(k, Acts(k, Obj(s, k), a))], ev)
=============================================================================
