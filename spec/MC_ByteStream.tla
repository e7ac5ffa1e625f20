--------------------------- MODULE MC_ByteStream ---------------------------
(* Every byte stream over a small alphabet up to MaxLen bytes, interleaved (if
   the alphabet has them) with parser controls; checked against declarative
   statements of what the stream means, and printed for replay into the code. *)
EXTENDS ByteStream, TLC, Json
CONSTANTS Alphabet,   \* bytes, and controls: 300 reset, 301 new group, 302 disable, 303 enable
          MaxLen, Whole, Print0

VARIABLES inp, p, outs
vars == <<inp, p, outs>>
G0 == 3
P0 == Parser(G0, Whole, TRUE)
Init == inp = <<>> /\ p = P0 /\ outs = <<>>
Control(q, s) == CASE s = 300 -> Reset(q) [] s = 301 -> SetGroup(q, (q.grp + 7) % 16)
                   [] s = 302 -> SetEnabled(q, FALSE) [] s = 303 -> SetEnabled(q, TRUE)
Next == /\ Len(inp) < MaxLen
        /\ \E s \in Alphabet :
             LET r == IF s < 256 THEN Feed(p, s) ELSE R(Control(p, s), <<>>) IN
             /\ inp' = Append(inp, s) /\ p' = r.p /\ outs' = Append(outs, r.out)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Out == Cat(outs)
NoControls == \A k \in DOMAIN inp : inp[k] < 256
NoRt(s) == SelectSeq(s, LAMBDA b : ~IsRealtime(b))
IsRtItem(i) == i[1] = 1 /\ Hi(i[2]) = 1 /\ i[3] >= 248
IsSxItem(i) == i[1] = 2 \/ Hi(i[2]) = 3

\* C02: realtime bytes come out at once and leave everything else as if they were not there
RealtimeTransparent == NoControls =>
  /\ SelectSeq(Out, LAMBDA i : ~IsRtItem(i)) = FeedAll(P0, NoRt(inp)).out
  /\ \A k \in DOMAIN inp : IsRealtime(inp[k]) =>
        outs[k] = IF DefinedRealtime(inp[k]) THEN << Pkt(SysPacket(G0, inp[k], <<>>)) >> ELSE <<>>
  /\ \A k \in DOMAIN inp : ~IsRealtime(inp[k]) => \A j \in DOMAIN outs[k] : ~IsRtItem(outs[k][j])

\* C01: which messages the stream contains, without a parser
LastStatus(s, j) == LET K == {k \in 1..j : s[k] >= 128} IN
                    IF K = {} THEN 0 ELSE CHOOSE k \in K : \A m \in K : m <= k
MsgAt(s, j) ==   \* the message completed by byte j of a realtime-free stream, if any
  LET k == LastStatus(s, j)
      n == IF k = 0 THEN 0 ELSE DataBytes(s[k])
      c == j - k IN
  CASE k = 0 -> <<>>
    [] IsVoice(s[k]) /\ c > 0 /\ c % n = 0 -> << Pkt(VoicePacket(G0, s[k], SubSeq(s, j - n + 1, j))) >>
    [] IsCommon(s[k]) /\ c = n -> << Pkt(SysPacket(G0, s[k], SubSeq(s, k + 1, j))) >>
    [] OTHER -> <<>>
MessagesExact == NoControls =>
  LET s == NoRt(inp) IN
  SelectSeq(Out, LAMBDA i : ~IsRtItem(i) /\ ~IsSxItem(i)) = Cat([j \in DOMAIN s |-> MsgAt(s, j)])

\* C03/C04: the SysEx messages the stream contains: F0 data* F7
SysexAt(s, j) ==
  IF s[j] # 247 THEN <<>>
  ELSE LET k == LastStatus(s, j - 1) IN
       IF k = 0 \/ s[k] # 240 THEN <<>> ELSE << SubSeq(s, k + 1, j - 1) >>
Contained(s) == Cat([j \in DOMAIN s |-> SysexAt(s, j)])
\* payloads of the messages completed by the emitted packets; well framed or "bad"
Reassemble(items) ==
  FoldLeft(LAMBDA acc, i :
      LET f == Hi(i[3])  d == SubSeq(i, 4, 3 + Lo(i[3])) IN
      CASE f = 0 -> [open |-> FALSE, cur |-> <<>>, done |-> Append(acc.done, d), good |-> acc.good]
        [] f = 1 -> [open |-> TRUE, cur |-> d, done |-> acc.done, good |-> acc.good]
        [] f = 2 -> [open |-> TRUE, cur |-> acc.cur \o d, done |-> acc.done, good |-> acc.good /\ acc.open]
        [] f = 3 -> [open |-> FALSE, cur |-> <<>>, done |-> Append(acc.done, acc.cur \o d), good |-> acc.good /\ acc.open],
    [open |-> FALSE, cur |-> <<>>, done |-> <<>>, good |-> TRUE], items)
SysexExact == NoControls =>
  LET s == NoRt(inp)
      sx == SelectSeq(Out, IsSxItem)
      msgs == Contained(s) IN
  IF Whole
  THEN sx = [k \in DOMAIN SelectSeq(msgs, WholeMessage) |-> SplitMessage(SelectSeq(msgs, WholeMessage)[k])]
  ELSE LET a == Reassemble(sx) IN a.good /\ a.done = SelectSeq(msgs, LAMBDA m : m # <<>>)

\* C05: nothing is emitted while callbacks are disabled; reset forgets; chunk borders do not matter
Enabled(k) == LET K == {j \in 1..k : inp[j] \in {302, 303}} IN
              K = {} \/ inp[CHOOSE j \in K : \A m \in K : m <= j] = 303
SilentWhenDisabled == \A k \in DOMAIN inp : ~Enabled(k) => outs[k] = <<>>
ResetForgets == (inp # <<>> /\ inp[Len(inp)] = 300) => p = Parser(p.grp, Whole, p.on)
ChunkFree == NoControls => \A k \in 0..Len(inp) :
  LET a == FeedAll(P0, SubSeq(inp, 1, k))  b == FeedAll(a.p, SubSeq(inp, k + 1, Len(inp)))
  IN  a.out \o b.out = Out /\ b.p = p
BulkAgrees == NoControls => \A k \in 0..Len(inp) :
  LET a == FeedEach(P0, SubSeq(inp, 1, k))  r == SubSeq(inp, k + 1, Len(inp)) IN FeedRun(a.p, r) = FeedEach(a.p, r)

-----------------------------------------------------------------------------
Event(s, g) == CASE s < 256 -> << "feed", <<(s + g) % 3>>, <<s>> >>
              [] s = 300 -> << "reset" >> [] s = 301 -> << "group", <<g>> >>
              [] s = 302 -> << "enable", <<0>> >> [] s = 303 -> << "enable", <<1>> >>
GroupAfter(k) == (G0 + 7 * Cardinality({j \in 1..k : inp[j] = 301})) % 16
Behaviour == [ case |-> << << "newparser", <<1, G0, Bool(Whole), 1>> >> >>
                        \o [k \in DOMAIN inp |-> Event(inp[k], GroupAfter(k))],
               expect |-> << <<>> >> \o outs ]
Show == (Print0 /\ Len(inp) = MaxLen) => PrintT("BEHAVIOUR " \o ToJson(Behaviour))
=============================================================================
