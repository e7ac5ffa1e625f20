---------------------------- MODULE OtherPackets ----------------------------
(* System, utility, SysEx, flex data and stream packets.                      *)
EXTENDS ChannelVoice

\* ------------------------------------------------------- system, utility
Sys(g, st, d1, d2) == P16(<< 16 + g, st, d1, d2 >>)
SysView(p) == IF Type(p) # 1 THEN <<>>
              ELSE << Group(p), p[2], B7(p[3]), B7(p[4]), IF p[2] = 242 THEN B7(p[3]) + 128 * B7(p[4]) ELSE 0 >>
Util(st, w) == P16(<< 0, st >> \o w)
UtilView(p) == << <<p[2]>>, SubSeq(p, 3, 4) >>

\* ---------------------------------------------------------- SysEx packets
IsSx7(p) == Type(p) = 3 /\ Hi(p[2]) \in 0..3 /\ Lo(p[2]) \in 0..6
IsSx8(p) == Type(p) = 5 /\ Hi(p[2]) \in 0..3 /\ Lo(p[2]) \in 1..14
Sx7View(p) == IF ~IsSx7(p) THEN << <<>>, <<>> >>
              ELSE << << Group(p), Hi(p[2]) * 16, Hi(p[2]), Lo(p[2]) >>, SubSeq(p, 3, 2 + Lo(p[2])) >>
Sx8View(p) == IF ~IsSx8(p) THEN << <<>>, <<>> >>
              ELSE << << Group(p), p[3], Hi(p[2]), Lo(p[2]) - 1 >>, SubSeq(p, 4, 2 + Lo(p[2])) >>
New7(f, g) == P16(<< 48 + g, f * 16 >>)
Add7(p, b) == [p EXCEPT ![3 + Lo(p[2])] = B7(b), ![2] = @ + 1]
New8(f, g, id) == P16(<< 80 + g, f * 16 + 1, id >>)
Add8(p, b) == [p EXCEPT ![3 + Lo(p[2])] = b, ![2] = @ + 1]
Obs7(p) == << p, << Hi(p[2]), Lo(p[2]) >>, Sx7View(p)[2] >> \o Sx7View(p)
Obs8(p) == << p, << Hi(p[2]), Lo(p[2]) - 1, p[3] >>, Sx8View(p)[2] >> \o Sx8View(p)

\* -------------------------------------------------------------- flex data
Flex(g, f, a, ch, bank, st, d) == << 208 + g, f * 64 + a * 16 + ch, bank, st >> \o Pad(d, 12)
UpToZero(s) == LET z == {k \in DOMAIN s : s[k] = 0} IN
               IF z = {} THEN s ELSE SubSeq(s, 1, (CHOOSE k \in z : \A j \in z : k <= j) - 1)
FlexText(p) == UpToZero(SubSeq(p, 5, 16))
FlexView(p) == IF Type(p) # 13 THEN << <<>>, <<>>, <<>> >>
               ELSE << << Group(p), p[2] \div 64, (p[2] \div 16) % 4, Lo(p[2]), p[3], p[4] >>, SubSeq(p, 5, 16), FlexText(p) >>
FlexObs(p) == << p, << p[2] \div 64, (p[2] \div 16) % 4, p[3], p[4] >>, FlexText(p) >> \o FlexView(p)

\* ----------------------------------------------------------------- stream
Stream(f, st, d) == Pad(<< 240 + f * 4, st >> \o d, 16)
StFormat(p) == Lo(p[1]) \div 4
Ident(mf, fam, mod, rev) ==      \* after the two status bytes: reserved, then 7 bit fields, least significant first
  << 0, 0 >> \o mf \o << fam % 128, fam \div 128, mod % 128, mod \div 128,
                         rev % 128, (rev \div 128) % 128, (rev \div 16384) % 128, rev \div 2097152 >>
B(x, k) == BitAt(x, k)
StreamViews(p) ==
  LET on == Type(p) = 15
      is(st) == on /\ p[2] = st
      none(n) == [k \in 1..n |-> <<>>]
      name(st, from) == IF is(st) THEN << << StFormat(p) >>, UpToZero(SubSeq(p, from, 16)) >> ELSE none(2) IN
  << <<Bool(on)>> >>
  \o (IF is(0) THEN << << p[3], p[4], p[8] % 32, B(p[8], 0), B(p[8], 1), B(p[8], 2), B(p[8], 3), B(p[8], 4) >>, SubSeq(p, 3, 4) >> ELSE none(2))
  \o (IF is(1) THEN << << p[3], p[4], B7(p[5]), B(p[5], 7), p[7] % 4, p[8] % 4 >>, SubSeq(p, 3, 4) >> ELSE none(2))
  \o (IF is(2) THEN << << 0, B7(p[6]), B7(p[7]), B7(p[8]) >>,
                       << B7(p[9]) + 128 * B7(p[10]), B7(p[11]) + 128 * B7(p[12]),
                          B7(p[13]) + 128 * B7(p[14]) + 16384 * B7(p[15]) + 2097152 * B7(p[16]) >> >> ELSE none(2))
  \o name(3, 3)
  \o name(4, 3)
  \o (IF is(5) \/ is(6) THEN << << p[3] % 4, p[4] % 4 >> >> ELSE none(1))
  \o (IF is(16) THEN << << p[3], p[4] % 16, B(p[4], 0), B(p[4], 1), Bool(p[3] \in {0, 255}), Bool(p[3] \in {5, 255}), Bool(p[3] \in {31, 255}) >> >>
      ELSE none(1))
  \o (IF is(17) THEN << << B(p[3], 7), B7(p[3]), p[4] % 4, (p[4] \div 4) % 4, (p[4] \div 16) % 4, p[5], p[6], p[7], p[8] >> >> ELSE none(1))
  \o (IF is(18) THEN << << StFormat(p), B7(p[3]) >>, UpToZero(SubSeq(p, 4, 16)) >> ELSE none(2))
StObs(p) == << p, <<StFormat(p)>> >> \o StreamViews(p)
FbInfo(fb, act, dir, m1, hint, first, num, ci, sx) ==
  Stream(0, 17, << act * 128 + fb, (IF hint = 0 THEN dir ELSE hint) * 16 + m1 * 4 + dir, first, num, ci, sx >>)

\* every constructor with every number of arguments: what is left out is zero
Ctors(h, w, d) ==
  LET g == h[1]  st == h[4] + h[5]
      flex(n) == Flex(g, h[8], h[9], h[5], h[10], h[11], SubSeq(d, 1, n)) IN
  << Sys(g, h[2], 0, 0), Sys(g, h[2], h[6], 0), Sys(g, h[2], h[6], h[7]), Util(h[3], <<0, 0>>), Util(h[3], w),
     One(g, st, 0, 0, 0), One(g, st, 0, h[6], 0), One(g, st, 0, h[6], h[7]), One(g, st, 0, h[6], 0),
     P16(<< 208 + g >>), flex(0), flex(4), flex(8), flex(12), flex(4), flex(8), Stream(0, h[10], <<>>),
     New7(0, 0), New7(1, 0), New7(2, 0), New7(3, 0), New8(0, 0, h[12]), New8(1, 0, h[12]), New8(2, 0, h[12]), New8(3, 0, h[12]),
     P16(SubSeq(d, 1, 4)), P16(SubSeq(d, 1, 8)), P16(d), d \o SubSeq(d, 1, 4), Zeros(16), Zeros(16), Zeros(16) >>

\* a name in pieces of n bytes, head before each piece
Formats(k) == [i \in 1..k |-> IF k = 1 THEN 0 ELSE IF i = 1 THEN 1 ELSE IF i = k THEN 3 ELSE 2]
NamePackets(st, head, name, n) ==
  LET ps == Pieces(name, n) IN [i \in DOMAIN ps |-> Stream(Formats(Len(ps))[i], st, head \o ps[i])]
NameSent(st, head, name, n) ==      \* of each packet: itself, the text it carries, its format and what precedes the text
  LET ps == Pieces(name, n)  qs == NamePackets(st, head, name, n) IN
  [i \in 1..(3 * Len(ps)) |-> LET k == (i + 2) \div 3 IN
     IF i % 3 = 1 THEN qs[k] ELSE IF i % 3 = 2 THEN ps[k] ELSE << Formats(Len(ps))[k] >> \o head]
=============================================================================
