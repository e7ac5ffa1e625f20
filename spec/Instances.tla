----------------------------- MODULE Instances ------------------------------
(* Many objects side by side: parsers ("p"), collectors ("7", "8"), JR clock
   followers ("j") and SysEx messages ("x") live in slots.  Every object is a
   value: a call on one slot is that object's own step (ByteStream, Sysex,
   JrFollower) and touches no other slot; a copy or assignment gives the target
   exactly the state its source has at that moment; a move does the same and
   leaves nothing behind.  In which thread a call is made does not matter.
   A delivery is shown with the tag of the callback that got it.             *)
EXTENDS Callbacks
J == INSTANCE JrFollower WITH Tick <- 160, Modulus <- 65536, Offset0 <- 10000

Slots == 1..4
Nothing == [k |-> "none", tag |-> 0, o |-> <<>>]
NoObjects == [i \in Slots |-> Nothing]
Thing(k, tag, o) == [k |-> k, tag |-> tag, o |-> o]
Message(id, d) == [id |-> id, d |-> d]

-----------------------------------------------------------------------------
(* One object *)
\* an item: a byte (p), a packet (7, 8), <<0, time, timestamp>> a JR clock or <<1, time, timestamp>> a message to schedule (j)
ItemStep(x, item) ==
  CASE x.k = "p" -> LET r == One("p", x.o, item) IN [x |-> [x EXCEPT !.o = r.o], out |-> [n \in DOMAIN r.out |-> <<x.tag>> \o r.out[n]]]
    [] x.k \in {"7", "8"} -> LET r == One(x.k, x.o, item) IN [x |-> [x EXCEPT !.o = r.o], out |-> [n \in DOMAIN r.out |-> <<x.tag>> \o Tail(r.out[n])]]
    [] x.k = "j" -> LET f == IF item[1] = 0 THEN J!Clock(x.o, item[2], item[3]) ELSE J!Schedule(x.o, item[2], item[3])
                    IN [x |-> [x EXCEPT !.o = f], out |-> IF item[1] = 0 THEN <<>> ELSE << <<J!DueTime(f)>> >>]
ItemSteps(x, items) == FoldLeft(LAMBDA acc, it : LET r == ItemStep(acc.x, it) IN [x |-> r.x, out |-> acc.out \o r.out], [x |-> x, out |-> <<>>], items)

\* actions as in Callbacks, and <<6, tag>> another callback, <<7>> clear, <<8>> \o bytes: append
OneAct(x, a) ==
  CASE x.k = "x" -> [x EXCEPT !.o = IF a[1] = 7 THEN Message(<<0, 0, 0>>, <<>>) ELSE IF a[1] = 8 THEN [@ EXCEPT !.d = @ \o Tail(a)] ELSE @]
    [] x.k = "j" -> [x EXCEPT !.o = IF a[1] = 1 THEN J!NoClock ELSE @]
    [] OTHER     -> IF a[1] = 6 THEN [x EXCEPT !.tag = a[2]] ELSE [x EXCEPT !.o = Act(x.k, @, a)]
AllActs(x, as) == FoldLeft(LAMBDA y, a : OneAct(y, a), x, as)
ReadOf(x) ==
  CASE x.k = "x" -> << x.o.id \o x.o.d >>
    [] x.k = "p" -> << <<x.o.grp, IF x.o.on THEN 1 ELSE 0>> >>
    [] x.k = "j" -> << <<x.o.offset, x.o.jitter>> >>
    [] OTHER     -> <<>>
\* the whole message in a delivery of an object of kind k, if it is one
Carries(k, item) == k \in {"7", "8"} \/ (k = "p" /\ item[2] = 2)
Carried(k, item) == LET at == IF k = "7" THEN 2 ELSE 3 IN Message(SubSeq(item, at, at + 2), SubSeq(item, at + 3, Len(item)))

-----------------------------------------------------------------------------
(* All of them *)
NewThing(c, rest) ==
  CASE c[2] = 1 -> Thing("p", c[5], B!Parser(c[3], c[4] = 1, TRUE))
    [] c[2] = 2 -> Thing("7", c[3], X!Collector)
    [] c[2] = 3 -> Thing("8", c[3], X!Collector)
    [] c[2] = 4 -> Thing("x", 0, Message(SubSeq(rest[1], 1, 3), SubSeq(rest[1], 4, Len(rest[1]))))
    [] c[2] = 5 -> Thing("j", 0, J!NoClock)
Shared7 == Message(<<0, 33, 9>>, [n \in 1..20 |-> n])
Shared8 == Message(<<65, 0, 0>>, [n \in 1..31 |-> 199 + n])
SharedRead(g) == X!Segments7(g, Shared7.id, Shared7.d) \o X!Segments8(g, g + 40, Shared8.id, Shared8.d)

Ok(s, ev, out) == [st |-> s, ok |-> ev.r = out, want |-> out]
InstStep(s, ev) ==
  LET a == ev.i  h == a[1]  rest == Tail(a) IN
  CASE ev.o = "new"     -> Ok([s EXCEPT ![h[1]] = NewThing(h, rest)], ev, <<>>)
    [] ev.o \in {"copy", "assign"} -> Ok([s EXCEPT ![h[1]] = s[h[2]]], ev, <<>>)
    [] ev.o \in {"move", "massign"} -> Ok([s EXCEPT ![h[1]] = s[h[2]], ![h[2]] = Nothing], ev, <<>>)
    [] ev.o = "exch"    -> Ok([s EXCEPT ![h[1]] = s[h[2]], ![h[2]] = s[h[1]]], ev, <<>>)
    [] ev.o = "drop"    -> Ok([s EXCEPT ![h[1]] = Nothing], ev, <<>>)
    [] ev.o = "act"     -> Ok([s EXCEPT ![h[1]] = AllActs(@, rest)], ev, <<>>)
    [] ev.o = "read"    -> Ok(s, ev, ReadOf(s[h[1]]))
    [] ev.o = "eq"      -> Ok(s, ev, << << IF s[h[1]].o = s[h[2]].o THEN 1 ELSE 0 >> >>)
    [] ev.o = "shared"  -> Ok(s, ev, SharedRead(h[1]))
    [] ev.o = "tick"    -> Ok(s, ev, <<>>)
    [] ev.o = "feed"    ->
       LET k  == s[h[1]].k
           r  == ItemSteps(s[h[1]], IF k = "p" THEN rest[1] ELSE rest)
           ms == SelectSeq(r.out, LAMBDA it : Carries(k, it))
           s1 == [s EXCEPT ![h[1]] = r.x]
       IN Ok(IF h[2] = 0 \/ ms = <<>> THEN s1 ELSE [s1 EXCEPT ![h[2]] = Thing("x", 0, Carried(k, ms[Len(ms)]))], ev, r.out)
=============================================================================
