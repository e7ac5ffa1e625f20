---------------------------- MODULE ChannelVoice ----------------------------
(* Channel voice messages of both protocols: formats, views, the protocol
   agnostic reading of them, and translation between the protocols.           *)
EXTENDS Ump

One(g, st, ch, d1, d2) == P16(<< 32 + g, st + ch, d1, d2 >>)
Two(g, st, ch, b3, b4, w) == P16(<< 64 + g, st + ch, b3, b4 >> \o w)
V7(v16)  == Top(v16, 7)          \* narrowed values
C7(v32)  == Top(v32, 7)
C14(v32) == Top(v32, 14)
Bend1(g, ch, v14) == One(g, 224, ch, v14 % 128, v14 \div 128)
PcWord(prog, bank) == << prog, 0, bank \div 128, bank % 128 >>

View1(p) == IF Type(p) # 2 THEN <<>>
            ELSE << Group(p), Hi(p[2]) * 16, Lo(p[2]), B7(p[3]), B7(p[4]), B7(p[3]) + 128 * B7(p[4]) >>
View2(p) == IF Type(p) # 4 THEN << <<>>, <<>> >>
            ELSE << << Group(p), Hi(p[2]) * 16, Lo(p[2]), B7(p[3]), p[4] >>, SubSeq(p, 5, 8) >>

-----------------------------------------------------------------------------
(* reading either protocol *)
IsCv(p) == Type(p) \in {2, 4}
Is(p, st) == IsCv(p) /\ Hi(p[2]) * 16 = st
Is2(p, st) == Type(p) = 4 /\ Hi(p[2]) * 16 = st
Silent1(p) == Type(p) = 2 /\ Hi(p[2]) = 9 /\ B7(p[4]) = 0     \* MIDI 1 note on that means note off
NoteOn(p)  == Is(p, 144) /\ ~Silent1(p)
NoteOff(p) == Is(p, 128) \/ Silent1(p)
Filters(p) == [k \in 1..16 |-> Bool(
  CASE k = 1 -> NoteOn(p)
    [] k = 2 -> NoteOff(p)
    [] k = 3 -> Is(p, 160)
    [] k = 4 -> Is(p, 176)
    [] k = 5 -> Is(p, 192)
    [] k = 6 -> Is(p, 208)
    [] k = 7 -> Is(p, 224)
    [] k = 8 -> Is2(p, 32)
    [] k = 9 -> Is2(p, 48)
    [] k = 10 -> Is2(p, 0)
    [] k = 11 -> Is2(p, 0) /\ p[4] = 3
    [] k = 12 -> Is2(p, 16)
    [] k = 13 -> Is2(p, 96)
    [] k = 14 -> Is2(p, 144) /\ p[4] = 3
    [] k = 15 -> Is2(p, 32) /\ p[3] = 0 /\ p[4] = 0
    [] k = 16 -> Is2(p, 32) /\ p[3] = 0 /\ p[4] = 7)]
WithStatus(p) == [k \in 1..16 |-> Bool(Is(p, (k - 1) * 16))]
Attrs == << 0, 1, 2, 3, 4, 127, 128, 129, 131, 255 >>
WithAttr(p, st) == [k \in 1..10 |-> Bool(Is2(p, st) /\ p[4] = Attrs[k])]

W2(p) == SubSeq(p, 5, 8)
Up7_32(v) == UpWord(v, 7, 32)
Up7_16(v) == SubSeq(UpWord(v, 7, 16), 3, 4)
Velocity(p) == IF Type(p) = 4 THEN SubSeq(p, 5, 6) ELSE IF Silent1(p) THEN <<128, 0>> ELSE Up7_16(B7(p[4]))
Ctrl(p) == IF Type(p) = 4 THEN W2(p) ELSE Up7_32(B7(p[4]))
Press(p) == IF Type(p) = 4 THEN W2(p) ELSE Up7_32(B7(p[3]))
Bend(p) == IF Type(p) = 4 THEN W2(p) ELSE UpWord(B7(p[3]) + 128 * B7(p[4]), 14, 32)
Program(p) == IF Type(p) = 4 THEN B7(p[5]) ELSE B7(p[3])
NotePitch(p) == IF Is2(p, 144) /\ p[4] = 3 THEN SubSeq(p, 7, 8) ELSE Be16(B7(p[3]) * 512)
Sens14(p) == << p[5], (p[6] \div 4) * 4, 0, 0 >>              \* semitones and cents with 14 bits
\* what the accessors r have to say about p, as far as p is such a message
HasNote(p) == Is(p, 128) \/ Is(p, 144) \/ Is(p, 160) \/ Is2(p, 0) \/ Is2(p, 16) \/ Is2(p, 96) \/ Is2(p, 240)
GetOk(p, r) ==
  /\ HasNote(p) => r[1][1] = B7(p[3])
  /\ Is(p, 176) => r[1][2] = B7(p[3])
  /\ Is(p, 192) => r[1][3] = Program(p)
  /\ (Is2(p, 128) \/ Is2(p, 144)) => r[1][4] = p[4] /\ r[8] = SubSeq(p, 7, 8)
  /\ (Is2(p, 0) \/ Is2(p, 16)) => r[1][5] = p[4] /\ r[1][6] = p[4] /\ r[5] = W2(p)
  /\ Is(p, 144) => r[2] = NotePitch(p)
  /\ (Is(p, 128) \/ Is(p, 144)) => r[3] = Velocity(p)
  /\ Is(p, 160) => r[4] = Ctrl(p) /\ r[5] = Ctrl(p)
  /\ Is(p, 176) => r[5] = Ctrl(p)
  /\ (Is2(p, 32) \/ Is2(p, 48) \/ Is2(p, 64) \/ Is2(p, 80)) => r[5] = W2(p)
  /\ Is(p, 208) => r[6] = Press(p)
  /\ Is(p, 224) => r[7] = Bend(p)
  /\ Filters(p)[15] = 1 => r[9] = Sens14(p)
  /\ Filters(p)[16] = 1 => r[10] = W2(p)
  /\ Is2(p, 96) => r[11] = W2(p)

-----------------------------------------------------------------------------
(* translation; <<>> where there is no faithful counterpart *)
Reserved == {0, 6, 32, 38, 88, 98, 99, 100, 101}
To2(p) ==
  IF Type(p) # 2 THEN <<>>
  ELSE LET g == Group(p)  ch == Chan(p)  d1 == B7(p[3])  d2 == B7(p[4])  st == Hi(p[2]) * 16 IN
  CASE st = 128 -> << Two(g, st, ch, d1, 0, Up7_16(d2) \o <<0, 0>>) >>
    [] st = 144 -> << IF d2 = 0 THEN Two(g, 128, ch, d1, 0, <<128, 0, 0, 0>>)
                      ELSE Two(g, st, ch, d1, 0, Up7_16(d2) \o <<0, 0>>) >>
    [] st = 160 -> << Two(g, st, ch, d1, 0, Up7_32(d2)) >>
    [] st = 176 -> IF d1 \in Reserved THEN <<>> ELSE << Two(g, st, ch, d1, 0, Up7_32(d2)) >>
    [] st = 192 -> << Two(g, st, ch, 0, 0, <<d1, 0, 0, 0>>) >>
    [] st = 208 -> << Two(g, st, ch, 0, 0, Up7_32(d1)) >>
    [] st = 224 -> << Two(g, st, ch, 0, 0, UpWord(d1 + 128 * d2, 14, 32)) >>
    [] OTHER -> <<>>
To1(p) ==
  IF Type(p) # 4 THEN <<>>
  ELSE LET g == Group(p)  ch == Chan(p)  b3 == B7(p[3])  b4 == p[4]  w == W2(p)  st == Hi(p[2]) * 16 IN
  CASE st = 128 -> IF b4 # 0 THEN <<>> ELSE << One(g, st, ch, b3, V7(w)) >>
    [] st = 144 -> IF b4 # 0 THEN <<>> ELSE << One(g, st, ch, b3, Max2(1, V7(w))) >>
    [] st = 160 -> << One(g, st, ch, b3, C7(w)) >>
    [] st = 176 -> IF b3 \in Reserved THEN <<>> ELSE << One(g, st, ch, b3, C7(w)) >>
    [] st = 192 -> IF b4 % 2 = 1 THEN <<>> ELSE << One(g, st, ch, B7(w[1]), 0) >>
    [] st = 208 -> << One(g, st, ch, C7(w), 0) >>
    [] st = 224 -> << Bend1(g, ch, C14(w)) >>
    [] OTHER -> <<>>
There1(p) == LET q == To2(p) IN IF q = <<>> THEN <<>> ELSE To1(q[1])
=============================================================================
