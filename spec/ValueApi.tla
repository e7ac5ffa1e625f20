------------------------------ MODULE ValueApi ------------------------------
(* Calls on value types.                                                      *)
EXTENDS Values
ApiStart == [kind |-> 0, last |-> <<-70000, 0>>]
Ans(s, ev, out) == [st |-> s, ok |-> ev.r = out, want |-> out]
Rel(s, good, w) == [st |-> s, ok |-> good, want |-> w]
W0(r) == U(r[1])
Row(n, f(_)) == [k \in 1..n |-> f(k - 1)]
NeverFalls(row) == \A k \in 1..(Len(row) - 1) : row[k] <= row[k + 1]
Rises(row) == \A k \in 1..(Len(row) - 1) : row[k] < row[k + 1]
ApiStep(s, ev) ==
  LET a == ev.i  r == ev.r IN
  CASE ev.o = "up" -> \* [x, y] [value as 4 bytes]
         Ans(s, ev, << Word(Upsample(LowBits(a[2], a[1][1]), a[1][1], a[1][2])) >>)
    [] ev.o = "up7"  -> LET u == UpWord(a[1][1], 7, 32) IN
         Ans(s, ev, << UpWord(a[1][1], 7, 16), u, UpWord(a[1][1], 7, 16), u, <<a[1][1]>>, <<a[1][1]>>, <<a[1][1], a[1][1]>> >>)
    [] ev.o = "up14" -> LET u == UpWord(a[1][1], 14, 32) IN
         Ans(s, ev, << u, u, u, <<a[1][1]>>, <<a[1][1]>>, <<a[1][1]>> >>)
    [] ev.o = "down16" -> LET t == Top(a[1], 7) IN Ans(s, ev, << <<t, t>> >>)
    [] ev.o = "down32" -> LET t == Top(a[1], 7)  u == Top(a[1], 14) IN Ans(s, ev, << <<t, t>>, <<u, u, u>> >>)
    \* ------------------------------------------------ fixed point
    [] ev.o = "p+i" -> LET x == PitchPlus(a[1], a[2]) IN Ans(s, ev, <<x, x>>)
    [] ev.o = "i+i" -> LET x == IncPlus(a[1], a[2]) IN Ans(s, ev, <<x, x>>)
    [] ev.o = "c+i" -> LET x == CtrlPlus(a[1], a[2]) IN Ans(s, ev, <<x, x>>)
    [] ev.o = "b*s" -> LET x == BendTimes(a[1], a[2]) IN Ans(s, ev, <<x, x>>)
    [] ev.o = "p79" -> LET n == Top(a[1], 7) IN Ans(s, ev, << <<n>>, Pitch79To725(a[1]), Pitch79To725(a[1]), <<n>> >>)
    [] ev.o = "p725" -> Ans(s, ev, << <<Top(a[1], 7)>>, a[1], a[1] >>)
    [] ev.o = "note" -> Ans(s, ev, << NoteTo79(a[1][1]), NoteTo725(a[1][1]), <<a[1][1], a[1][1]>> >>)
    [] ev.o = "eq32" -> LET e == Bool(a[1] = a[2])  n == 1 - e IN Ans(s, ev, << <<e, n, e, n, e, n, e, n, e, n>> >>)
    [] ev.o = "eq16" -> LET e == Bool(a[1] = a[2])  n == 1 - e IN Ans(s, ev, << <<e, n, e, n>> >>)
    [] ev.o = "defaults" -> Ans(s, ev, << <<128, 0>>, <<128, 0, 0, 0>>, <<0, 0, 0, 0>>, <<0, 0>>, <<0, 0, 0, 0>>,
                                          <<4, 0, 0, 0>>, <<0, 0, 0, 0>>, <<0, 0, 0, 0>>, <<128, 0, 0, 0>> >>)
    \* ------------------------------------------------ reals: [neg, s] [n, 7 bytes]
    [] ev.o \in {"r79", "r79f"} -> LET x == PitchFromReal(a[1][1] = 1, BitsFromBytes(a[2]), a[1][2], 9, <<0, 65535>>) IN
                                   Ans(s, ev, << Be16(x[2]) >>)
    [] ev.o \in {"r725", "r725f"} -> Ans(s, ev, << ToBytes(PitchFromReal(a[1][1] = 1, BitsFromBytes(a[2]), a[1][2], 25, U32Max)) >>)
    [] ev.o \in {"rinc", "rincf"} -> Ans(s, ev, << ToBytes(IncFromReal(a[1][1] = 1, BitsFromBytes(a[2]), a[1][2])) >>)
    [] ev.o \in {"p+r", "p+rf"} -> Ans(s, ev, << ToBytes(PitchPlusReal(a[3], a[1][1] = 1, BitsFromBytes(a[2]), a[1][2])) >>)
    [] ev.o \in {"rvel", "rvelf"} -> Rel(s, Unit(a[1][1] = 1, BitsFromBytes(a[2]), a[1][2], 16, <<0, FromBe16(r[1])>>), <<>>)
    [] ev.o \in {"rctl", "rctlf"} -> Rel(s, Unit(a[1][1] = 1, BitsFromBytes(a[2]), a[1][2], 32, W0(r)), <<>>)
    [] ev.o \in {"rbend", "rbendf"} -> \* (1 +- n/2^s) / 2: a[3] = numerator of the shifted value, over 2^(s+1)
         Rel(s, Unit(a[3][1] = 1, BitsFromBytes(a[4]), a[1][2] + 1, 32, W0(r)), <<>>)
    \* stored value -> real -> value
    [] ev.o = "rtvel" -> Ans(s, ev, << a[1], a[1] >>)
    [] ev.o = "rtctl" -> Ans(s, ev, << a[1] >>)
    [] ev.o = "rtp79" -> Ans(s, ev, << a[1], a[1], <<0, 0>> \o a[1] >>)
    [] ev.o = "rtp725" -> Ans(s, ev, << a[1], a[1] >>)
    [] ev.o = "rtbend" -> LET d == Minus(U(r[1]), U(a[1])) IN Rel(s, d \in {<<0, 0>>, <<0, 1>>, <<-1, 65535>>}, a)
    \* readings as multiples of 2^-30: <<double>>, <<float>>
    [] ev.o \in {"asvel", "asctl"} ->
         LET ctr == IF ev.o = "asvel" THEN <<128, 0>> ELSE <<128, 0, 0, 0>>
             top == IF ev.o = "asvel" THEN <<255, 255>> ELSE <<255, 255, 255, 255>>
             bot == IF ev.o = "asvel" THEN <<0, 0>> ELSE <<0, 0, 0, 0>>
             x == r[1][1] IN
         Rel(s, /\ x \in 0..1073741824 /\ r[1][2] \in 0..1073741824
                /\ (a[1] = bot => r[1] = <<0, 0>>)
                /\ (a[1] = ctr => r[1] = <<536870912, 536870912>>)
                /\ (a[1] = top => r[1] = <<1073741824, 1073741824>>)
                /\ x - r[1][2] \in -64..64, <<>>)
    [] ev.o = "asbend" ->
         LET x == r[1][1] IN
         Rel(s, /\ x \in -1073741824..1073741824
                /\ (a[1] = <<0, 0, 0, 0>> => r[1] = <<-1073741824, -1073741824>>)
                /\ (a[1] = <<128, 0, 0, 0>> => r[1] = <<0, 0>>)
                /\ (a[1] = <<255, 255, 255, 255>> => r[1] = <<1073741824, 1073741824>>)
                /\ x - r[1][2] \in -64..64, <<>>)
    \* ------------------------------------------------ sweeps: [hi], 256 consecutive values from hi * 256
    [] ev.o = "sw.down16" -> LET row == Row(256, LAMBDA k : (a[1][1] * 256 + k) \div 512) IN Ans(s, ev, <<row, row>>)
    [] ev.o = "sw.up14" ->
         LET u == [k \in 0..255 |-> UpWord(a[1][1] * 256 + k, 14, 32)]
             hi == Row(256, LAMBDA k : u[k][1] * 256 + u[k][2])
             lo == Row(256, LAMBDA k : u[k][3] * 256 + u[k][4])
             id == Row(256, LAMBDA k : a[1][1] * 256 + k) IN
         Ans(s, ev, << hi, lo, hi, lo, hi, lo, id, id, id >>)
    [] ev.o = "sw.p79" ->
         LET n == Row(256, LAMBDA k : (a[1][1] * 256 + k) \div 512) IN
         Ans(s, ev, << n, Row(256, LAMBDA k : a[1][1] * 256 + k), Row(256, LAMBDA k : 0), n >>)
    [] ev.o = "sw.rt" -> LET id == Row(256, LAMBDA k : a[1][1] * 256 + k) IN Ans(s, ev, << id, id, id, id >>)
    [] ev.o = "sw.asvel" -> Rel(s, Rises(r[1]) /\ NeverFalls(r[2]), <<>>)
    [] ev.o = "sw.rvel" -> \* inputs v / 2^16, exact up to one half, within one step and never falling above
         Rel(s, \A j \in 1..2 : /\ NeverFalls(r[j])
                               /\ \A k \in 1..257 : LET v == a[1][1] * 256 + k - 1 IN
                                    IF v <= 32768 THEN r[j][k] = v
                                    ELSE IF v >= 65536 THEN r[j][k] = 65535
                                    ELSE r[j][k] - v \in -1..1 /\ r[j][k] >= 32768, <<>>)
    [] ev.o = "sw.r79" -> \* inputs v / 2^10: the nearest multiple of 2^-9
         LET row == Row(257, LAMBDA k : LET v == a[1][1] * 256 + k  n == (v + 1) \div 2 IN IF n > 65535 THEN 65535 ELSE n) IN
         Ans(s, ev, <<row, row>>)
    \* inputs of one kind in ascending order: results never decrease; r[1] is a 4 byte value or a reading
    [] ev.o = "mono" -> LET v == I(r[1]) IN
         [st |-> [kind |-> a[1][1], last |-> v], ok |-> a[1][1] # s.kind \/ Leq(s.last, v), want |-> <<>>]
    [] ev.o = "monou" -> LET v == U(r[1]) IN
         [st |-> [kind |-> a[1][1], last |-> v], ok |-> a[1][1] # s.kind \/ Leq(s.last, v), want |-> <<>>]
=============================================================================
