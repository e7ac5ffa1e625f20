---------------------------- MODULE ByteStreamApi ---------------------------
(* Calls on the byte stream parser and encoder.                               *)
EXTENDS ByteStream

Ans(s, ev, out) == [st |-> s, ok |-> ev.r = out, want |-> out]
ApiStep(s, ev) ==
  LET a == ev.i IN
  CASE ev.o = "newparser" ->
         Ans(Parser(IF a[1][1] = 1 THEN a[1][2] ELSE 0, a[1][3] = 1, a[1][4] = 1), ev, <<>>)
    [] ev.o = "feed"   -> LET f == FeedAll(s, a[2]) IN Ans(f.p, ev, f.out)
    [] ev.o = "reset"  -> Ans(Reset(s), ev, <<>>)
    [] ev.o = "group"  -> Ans(SetGroup(s, a[1][1]), ev, <<>>)
    [] ev.o = "enable" -> Ans(SetEnabled(s, a[1][1] = 1), ev, <<>>)
    [] ev.o = "query"  -> Ans(s, ev, << <<s.grp, Bool(s.on)>> >>)
    [] ev.o = "to"     -> LET e == Encode(a[1]) IN Ans(s, ev, << <<Len(e)>>, <<StreamSize(a[1])>>, e >>)
    [] ev.o = "from"   -> Ans(s, ev, << FromBytes(a[1][1], a[1][2], a[1][3]) >>)
    [] ev.o = "trip"   -> \* packet -> bytes -> parser: the parser sees the encoded bytes
         LET f == FeedAll(Parser(0, FALSE, TRUE), Cat([k \in DOMAIN a |-> Encode(a[k])]))
         IN  Ans(s, ev, [k \in DOMAIN f.out |-> Tail(f.out[k])])

ApiStart == Parser(0, FALSE, TRUE)
=============================================================================
