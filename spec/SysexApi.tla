------------------------------ MODULE SysexApi ------------------------------
(* Calls on SysEx segmentation, collectors and codecs.                        *)
EXTENDS Sysex

ApiStart == [c7 |-> Collector, c8 |-> Collector, id |-> <<0, 0, 0>>, data |-> <<>>]
Ans(s, ev, out) == [st |-> s, ok |-> ev.r = out, want |-> out]
\* one event appending e to the current message
Grow(s, ev, e) == LET t == [s EXCEPT !.data = @ \o e] IN Ans(t, ev, <<t.id, t.data>>)

ApiStep(s, ev) ==
  LET a == ev.i IN
  CASE ev.o = "seg7" -> Ans(s, ev, Segments7(a[1][1], a[2], a[3]))
    [] ev.o = "seg8" -> Ans(s, ev, Segments8(a[1][1], a[1][2], a[2], a[3]))
    [] ev.o = "new7" -> Ans([s EXCEPT !.c7 = Collector], ev, <<>>)
    [] ev.o = "new8" -> Ans([s EXCEPT !.c8 = Collector], ev, <<>>)
    [] ev.o = "cb7"  -> Ans([s EXCEPT !.c7.cb = a[1][1]], ev, <<>>)
    [] ev.o = "cb8"  -> Ans([s EXCEPT !.c8.cb = a[1][1]], ev, <<>>)
    [] ev.o = "lim7" -> Ans([s EXCEPT !.c7 = SetLimit(@, a[1][1])], ev, <<>>)
    [] ev.o = "lim8" -> Ans([s EXCEPT !.c8 = SetLimit(@, a[1][1])], ev, <<>>)
    [] ev.o = "reset7" -> Ans([s EXCEPT !.c7 = Shut(@)], ev, <<>>)
    [] ev.o = "reset8" -> Ans([s EXCEPT !.c8 = Shut(@)], ev, <<>>)
    [] ev.o = "feed7" -> LET f == Feeds(Feed7, s.c7, a) IN Ans([s EXCEPT !.c7 = f.c], ev, f.out)
    [] ev.o = "feed8" -> LET f == Feeds(Feed8, s.c8, a) IN Ans([s EXCEPT !.c8 = f.c], ev, f.out)
    [] ev.o = "send7" -> LET f == Feeds(Feed7, s.c7, Segments7(a[1][1], a[2], a[3])) IN Ans([s EXCEPT !.c7 = f.c], ev, f.out)
    [] ev.o = "send8" -> LET f == Feeds(Feed8, s.c8, Segments8(a[1][1], a[1][2], a[2], a[3])) IN Ans([s EXCEPT !.c8 = f.c], ev, f.out)
    [] ev.o = "sid8" ->  \* the stream id is meaningful while a message is under way
         [st |-> s, ok |-> ~s.c8.open \/ ev.r = << <<s.c8.sid>> >>, want |-> << <<s.c8.sid>> >>]
    [] ev.o = "sx"   -> LET t == [s EXCEPT !.id = a[1], !.data = a[2]] IN Ans(t, ev, <<t.id, t.data>>)
    [] ev.o = "add7"  -> Grow(s, ev, a[1])
    [] ev.o = "add14" -> Grow(s, ev, Put14(a[1][1]))
    [] ev.o = "add28" -> Grow(s, ev, Put28(a[1][1]))
    [] ev.o = "add32" -> Grow(s, ev, Put32(a[1]))
    [] ev.o = "addd"  -> Grow(s, ev, a[1])
    [] ev.o = "addi"  -> Grow(s, ev, PutIdentity([id |-> a[1], family |-> a[2][1], model |-> a[2][2], revision |-> a[2][3]]))
    [] ev.o = "get14" -> Ans(s, ev, << <<Get14(s.data, a[1][1] + 1)>> >>)
    [] ev.o = "get28" -> Ans(s, ev, << <<Get28(s.data, a[1][1] + 1)>> >>)
    [] ev.o = "get32" -> Ans(s, ev, << Get32(s.data, a[1][1] + 1) >>)
    [] ev.o = "geti"  -> LET x == GetIdentity(s.data, a[1][1] + 1) IN
                         Ans(s, ev, << x.id, <<x.family, x.model, x.revision>> >>)
    [] ev.o = "clear" -> Ans([s EXCEPT !.id = <<0, 0, 0>>, !.data = <<>>], ev, << <<0, 0, 0>>, <<>> >>)
    [] ev.o = "info"  -> Ans(s, ev, << << TotalSize(s.id, s.data), Bool(s.id = <<0, 0, 0>> /\ s.data = <<>>),
                                          Bool(AllData(s.data)), Bool(~AllData(s.data)),
                                          Bool(AllData(s.id) /\ AllData(s.data)) >> >>)
    [] ev.o = "eq" -> LET same == a[1] = a[3] /\ a[2] = a[4] IN
                      Ans(s, ev, << <<Bool(same), Bool(~same), Bool(same), Bool(~same)>> >>)
=============================================================================
