----------------------------- MODULE MC_Packets -----------------------------
(* Every short history of calls of one family over small argument sets,
   checked against laws stated without reference to how the calls are defined,
   and printed for replay into the code.                                      *)
EXTENDS PacketApi, TLC, Json
CONSTANTS Family, MaxLen, Big, Print0

Gs  == IF Big THEN {0, 1, 7, 8, 15} ELSE {0, 9, 15}
Chs == IF Big THEN {0, 1, 8, 15} ELSE {0, 15}
Sevens == IF Big THEN {0, 1, 2, 63, 64, 65, 126, 127} ELSE {0, 64, 127}
Bytes8 == IF Big THEN {0, 1, 2, 3, 4, 7, 127, 128, 129, 131, 254, 255} ELSE {0, 3, 7, 128, 255}
W16 == {<<0, 0>>, <<1, 255>>, <<2, 0>>, <<127, 255>>, <<128, 0>>, <<128, 1>>, <<254, 0>>, <<255, 255>>}
W32 == {<<0, 0, 0, 0>>, <<1, 255, 255, 255>>, <<2, 0, 0, 0>>, <<127, 255, 255, 255>>, <<128, 0, 0, 0>>, <<128, 0, 0, 1>>, <<255, 251, 0, 0>>, <<255, 255, 255, 255>>}
D12 == {Zeros(12), Const(12, 255), <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12>>, <<65, 0, 66, 0, 0, 0, 0, 0, 0, 0, 0, 67>>}
Ascend(n) == [k \in 1..n |-> 64 + ((k * 7) % 61)]

VARIABLES s, hist, outs
vars == <<s, hist, outs>>
Ev(c) == [o |-> c[1], i |-> Tail(c), r |-> <<>>]

-----------------------------------------------------------------------------
Container0 == {<<"p.type", <<t>> >> : t \in {0, 4, 5, 15}} \cup {<<"p.group", <<g>> >> : g \in {0, 6, 15}}
              \cup {<<o, <<i, v>> >> : o \in {"p.byte", "p.byte7"}, i \in IF Big THEN {0, 1, 3, 4, 7, 8, 15} ELSE {0, 1, 5, 15}, v \in {0, 90, 255}}
              \cup { <<"p.reset">> }
Sx7Calls == {<<"s7.new", <<f, g>> >> : f \in 0..3, g \in {0, 11}} \cup {<<"s7.add", <<b>> >> : b \in {0, 85}} \cup {<<"s7.set", <<k, b>> >> : k \in {0, 5}, b \in {42}}
Sx8Calls == {<<"s8.new", <<f, g, 171>> >> : f \in 0..3, g \in {0, 11}} \cup {<<"s8.add", <<b>> >> : b \in {0, 213}} \cup {<<"s8.set", <<k, b>> >> : k \in {0, 12}, b \in {170}}
            \cup {<<"s8.id", <<9>> >>}
StreamObj == {<<"st.new", <<st, f>> >> : st \in {3, 18}, f \in 0..3} \cup {<<"st.fmt", <<f>> >> : f \in 0..3}
             \cup {<<"st.byte", <<i, v>> >> : i \in {1, 2, 3, 15}, v \in {0, 77, 255}} \cup {<<"st.byte", <<0, 240 + v>> >> : v \in {0, 3, 9}}

V1 == {<<"m1", <<g, st, ch, a, b>> >> : g \in Gs, st \in {128, 144, 160, 176, 192, 208, 224}, ch \in Chs, a \in Sevens, b \in Sevens}
      \cup {<<o, <<g, ch, n>>, v>> : o \in {"m1.off", "m1.on"}, g \in Gs, ch \in Chs, n \in Sevens, v \in W16}
      \cup {<<o, <<g, ch, n>>, v>> : o \in {"m1.poly", "m1.cc"}, g \in Gs, ch \in Chs, n \in Sevens, v \in W32}
      \cup {<<o, <<g, ch, n>> >> : o \in {"m1.off0", "m1.pc"}, g \in Gs, ch \in Chs, n \in Sevens}
      \cup {<<o, <<g, ch>>, v>> : o \in {"m1.press", "m1.bend"}, g \in Gs, ch \in Chs, v \in W32}
V2 == {<<o, <<g, ch, n, x>>, v, w>> : o \in {"m2.off", "m2.on"}, g \in Gs, ch \in Chs, n \in Sevens, x \in Bytes8, v \in {<<0, 0>>, <<128, 1>>}, w \in {<<0, 0>>, <<255, 254>>}}
      \cup {<<o, <<g, ch, n>>, v>> : o \in {"m2.off0", "m2.on0"}, g \in Gs, ch \in Chs, n \in Sevens, v \in W16}
      \cup {<<"m2.onp", <<g, ch, n>>, v, w>> : g \in Gs, ch \in Chs, n \in Sevens, v \in {<<0, 0>>, <<128, 1>>}, w \in W16}
      \cup {<<o, <<g, ch, n>>, v>> : o \in {"m2.poly", "m2.cc", "m2.pnb"}, g \in Gs, ch \in Chs, n \in Sevens, v \in W32}
      \cup {<<o, <<g, ch, n, x>>, v>> : o \in {"m2.rpnc", "m2.apnc"}, g \in Gs, ch \in Chs, n \in Sevens, x \in Bytes8, v \in W32}
      \cup {<<o, <<g, ch, n, x>>, v>> : o \in {"m2.rc", "m2.ac", "m2.rrc", "m2.rac"}, g \in Gs, ch \in Chs, n \in Sevens, x \in Sevens, v \in W32}
      \cup {<<"m2.pc", <<g, ch, n>> >> : g \in Gs, ch \in Chs, n \in Sevens}
      \cup {<<"m2.pcb", <<g, ch, n, b>> >> : g \in Gs, ch \in Chs, n \in Sevens, b \in {0, 1, 127, 128, 8191, 8192, 16383}}
      \cup {<<"m2.pnm", <<g, ch, n, x>> >> : g \in Gs, ch \in Chs, n \in Sevens, x \in 0..3}
      \cup {<<o, <<g, ch>>, v>> : o \in {"m2.press", "m2.bend"}, g \in Gs, ch \in Chs, v \in W32}

Data7 == IF Big THEN 0..127 ELSE {0, 1, 2, 5, 6, 7, 31, 32, 33, 38, 63, 64, 65, 88, 97, 98, 101, 102, 126, 127}
Midi1 == {<<32 + g, st + ch, a, b>> : g \in {0, 9}, st \in {128, 144, 160, 176, 192, 208, 224}, ch \in {0, 15}, a \in IF Big THEN {0, 1, 6, 32, 38, 64, 88, 98, 99, 100, 101, 127} ELSE Data7, b \in Data7}
Odd1 == {<<32, st, a, b>> : st \in {0, 16, 127, 128, 144, 176, 240, 255}, a \in {0, 128, 255}, b \in {0, 128, 255}}
Midi2 == {<<64 + g, st * 16 + ch, a, b>> \o w : g \in {0, 9}, st \in 0..15, ch \in {0, 15}, a \in {0, 6, 60, 127, 188} \cup (IF Big THEN {1, 7, 88, 98, 101} ELSE {}),
                                               b \in {0, 1, 3, 7, 255}, w \in W32}
Reads(ops, ps) == {<<o, q>> : o \in ops, q \in ps}

SysCalls == {<<"sys", <<g, st, a, b>> >> : g \in Gs, st \in SystemStatus, a \in Sevens, b \in Sevens}
            \cup {<<"sys1", <<g, st, a>> >> : g \in Gs, st \in SystemStatus, a \in Sevens} \cup {<<"sys0", <<g, st>> >> : g \in Gs, st \in SystemStatus}
            \cup {<<"songpos", <<g, v>> >> : g \in Gs, v \in {0, 1, 127, 128, 255, 256, 8191, 8192, 16383}}
            \cup {<<"util", <<st>>, w>> : st \in {0, 16, 32, 48, 64, 255}, w \in W16} \cup {<<"jr", <<k, how>>, w>> : k \in 0..1, how \in 0..1, w \in W16}
\* the address is a channel (0) or a group (1), which has no channel
FlexCalls == {<<"flex", <<g, f, a[1], a[2], b, st>>, d>> : g \in Gs, f \in 0..3, a \in {<<1, 0>>} \cup {<<0, ch>> : ch \in Chs}, b \in {0, 1, 2, 255}, st \in {0, 5, 255}, d \in D12}
             \cup {<<"flex.text", <<g, f, a[1], a[2], b, st>>, Ascend(n)>> : g \in {0, 15}, f \in 0..3, a \in {<<1, 0>>, <<0, 5>>}, b \in 1..2, st \in {1, 4}, n \in {12}}
             \cup {<<"flex.text", <<g, f, a[1], a[2], b, st>>, Ascend(n)>> : g \in {0, 15}, f \in {0, 3}, a \in {<<1, 0>>, <<0, 5>>}, b \in 1..2, st \in {1, 4}, n \in 0..11}
             \cup {<<"flex.tempo", <<g>>, w>> : g \in Gs, w \in W32} \cup {<<"flex.sig", <<g, a, b, c>> >> : g \in Gs, a \in Bytes8, b \in Bytes8, c \in {0, 8, 255}}
             \cup {<<"flex.key", <<g, a[1], a[2], k, t>> >> : g \in Gs, a \in {<<1, 0>>} \cup {<<0, ch>> : ch \in Chs}, k \in {0, 1, 7, 8, 9, 15}, t \in 0..7}
StCalls == {<<"st.disc", <<b, x, y>> >> : b \in 0..31, x \in {0, 1, 255}, y \in {0, 1, 255}}
           \cup {<<"st.info", <<n, fix, p, e, x, y>> >> : n \in {0, 1, 32, 127}, fix \in 0..1, p \in 0..3, e \in 0..3, x \in {0, 1, 255}, y \in {0, 2}}
           \cup {<<"st.ident", <<f, m, r>>, id>> : f \in {0, 129, 16383}, m \in {0, 129, 16383}, r \in {0, 129, 16385, 2097153, 268435455}, id \in {<<0, 0, 33, 9>>, <<0, 65, 0, 0>>}}
           \cup {<<"st.name", <<f>>, Ascend(n)>> : f \in 0..3, n \in 0..14} \cup {<<"st.pid", <<f>>, Ascend(n)>> : f \in {0, 1, 3}, n \in 0..14}
           \cup {<<o, <<p, e>> >> : o \in {"st.req", "st.not"}, p \in 1..2, e \in 0..3} \cup {<<"st.fbd", <<b, f>> >> : b \in {0, 1, 31, 255}, f \in 0..3}
           \cup {<<"st.fbi", <<b, d, x, n>> >> : b \in {0, 1, 31}, d \in 1..3, x \in {0, 1, 15}, n \in {0, 1, 16}}
           \cup {<<"st.fbo", <<b, x, n>>, <<a, d[1], m, d[2], c, sx>> >> : b \in {0, 31}, x \in {0, 15}, n \in {1, 16}, a \in 0..1,
                   d \in { <<1, 0>>, <<1, 1>>, <<1, 3>>, <<2, 0>>, <<2, 2>>, <<2, 3>>, <<3, 0>>, <<3, 1>>, <<3, 2>>, <<3, 3>> }, m \in 0..2, c \in {0, 2}, sx \in {0, 255}}
           \cup {<<"st.fbn", <<f, b>>, Ascend(n)>> : f \in 0..3, b \in {0, 1, 31}, n \in 0..13}
NameCalls == {<<"send.name", Ascend(n)>> : n \in IF Big THEN 0..98 ELSE 0..60} \cup {<<"send.pid", Ascend(n)>> : n \in 0..16} \cup {<<"send.fbn", <<b>>, Ascend(n)>> : b \in {0, 1, 31}, n \in IF Big THEN 0..91 ELSE 0..60}

Calls == CASE Family = "container" -> Container0
           [] Family = "sx7" -> Sx7Calls [] Family = "sx8" -> Sx8Calls [] Family = "streamobj" -> StreamObj
           [] Family = "voice1" -> V1 [] Family = "voice2" -> V2
           [] Family = "translate1" -> Reads({"t12", "t121"}, Midi1 \cup Odd1)
           [] Family = "translate2" -> Reads({"t21"}, Midi2)
           [] Family = "read1" -> Reads({"cv.filters", "cv.views"}, Midi1 \cup Odd1)
           [] Family = "read2" -> Reads({"cv.filters", "cv.views"}, Midi2)
           [] Family = "system" -> SysCalls [] Family = "flex" -> FlexCalls [] Family = "stream" -> StCalls [] Family = "names" -> NameCalls
\* calls the library does not promise to survive are not made
May(c) == CASE c[1] = "s7.add" -> Lo(s.s7[2]) < 6 [] c[1] = "s8.add" -> Lo(s.s8[2]) < 14
            [] c[1] = "s7.set" -> c[2][1] < Lo(s.s7[2]) [] c[1] = "s8.set" -> c[2][1] + 1 < Lo(s.s8[2]) [] OTHER -> TRUE

Init == s = ApiStart /\ hist = <<>> /\ outs = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \E c \in Calls : May(c) /\ LET r == ApiStep(s, Ev(c)) IN s' = r.st /\ hist' = Append(hist, c) /\ outs' = Append(outs, r.want)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Laws *)
Call == hist[Len(hist)]
Op == Call[1]
A == Call[2]
Res == outs[Len(hist)]
Before == IF Len(hist) = 1 THEN Zeros(16) ELSE outs[Len(hist) - 1][1]     \* packet families report the packet first
On(fs) == Family \in fs /\ hist # <<>>

\* C17: a setter changes what it is named after and nothing else; text says everything significant
SettersIsolated == On({"container"}) =>
  LET p == Res[1] IN
  /\ p = s.p /\ Len(p) = 16 /\ \A k \in 1..16 : p[k] \in 0..255
  /\ CASE Op = "p.type"  -> Type(p) = A[1] /\ Group(p) = Group(Before) /\ SubSeq(p, 2, 16) = SubSeq(Before, 2, 16)
       [] Op = "p.group" -> Group(p) = A[1] /\ Type(p) = Type(Before) /\ SubSeq(p, 2, 16) = SubSeq(Before, 2, 16)
       [] Op \in {"p.byte", "p.byte7"} -> /\ \A k \in 1..16 : k # A[1] + 1 => p[k] = Before[k]
                                          /\ p[A[1] + 1] = (IF Op = "p.byte" THEN A[2] ELSE A[2] % 128)
       [] Op = "p.reset" -> \A k \in 1..16 : p[k] = 0
TextSaysIt == On({"container"}) =>
  LET p == s.p  t == Text(p) IN
  /\ Len(t) = 9 * Size(p) - 1 /\ PacketsIn(Fields(t)) = << Sig(p) >>
  /\ Same(p, P16(Sig(p))) /\ (~Same(p, Before) <=> Text(p) # Text(Before))
\* C19: a SysEx packet carries the bytes added to it, in order
Added(news, adds, sets) ==
  FoldLeft(LAMBDA acc, c : CASE c[1] = news -> <<>> [] c[1] = adds -> acc \o c[2] [] c[1] = sets -> [acc EXCEPT ![c[2][1] + 1] = c[2][2]] [] OTHER -> acc, <<>>, hist)
CarriesAdded ==
  /\ On({"sx7"}) => LET p == s.s7 IN IsSx7(p) /\ Sx7View(p)[2] = Added("s7.new", "s7.add", "s7.set") /\ SubSeq(p, 9, 16) = Zeros(8)
                                     /\ \A k \in (3 + Len(Sx7View(p)[2]))..8 : p[k] = 0
  /\ On({"sx8"}) => LET p == s.s8 IN IsSx8(p) /\ Sx8View(p)[2] = Added("s8.new", "s8.add", "s8.set")
                                     /\ \A k \in (4 + Len(Sx8View(p)[2]))..16 : p[k] = 0
StreamObjLaw == On({"streamobj"}) => LET p == Res[1] IN Type(p) = 15 /\ StFormat(p) = Res[2][1] /\ (Op = "st.fmt" => StFormat(p) = A[1] /\ SubSeq(p, 2, 16) = SubSeq(s.sm, 2, 16))
\* C18: a factory's message addresses what was asked for and has no stray bits
Factories ==
  /\ On({"voice1"}) => LET p == Res[1] IN
       /\ Type(p) = 2 /\ Group(p) = A[1] /\ p[3] < 128 /\ p[4] < 128 /\ SubSeq(p, 5, 16) = Zeros(12)
       /\ Chan(p) = (IF Op = "m1" THEN A[3] ELSE A[2]) /\ Midi1Protocol(p)
       /\ Op = "m1" => View1(p) = <<A[1], A[2], A[3], A[4], A[5], A[4] + 128 * A[5]>>
       /\ Op \in {"m1.off", "m1.on", "m1.poly", "m1.cc"} => p[3] = A[3] /\ p[4] = Call[3][1] \div 2
       /\ Op = "m1.bend" => p[4] = Call[3][1] \div 2 /\ p[3] = (Call[3][1] % 2) * 64 + Call[3][2] \div 4
  /\ On({"voice2"}) => LET p == Res[1] IN
       /\ Type(p) = 4 /\ Group(p) = A[1] /\ Chan(p) = A[2] /\ p[3] < 128 /\ SubSeq(p, 9, 16) = Zeros(8)
       /\ (Len(A) >= 3 /\ Op \notin {"m2.pc", "m2.pcb"}) => p[3] = A[3]
       /\ (Len(Call) = 3 /\ Len(Call[3]) = 4) => W2(p) = Call[3]
       /\ Op \in {"m2.pc", "m2.pcb"} => Program(p) = A[3] /\ p[7] < 128 /\ p[8] < 128
\* C15: what translation keeps
Silent(q) == Hi(q[2]) = 9 /\ q[4] = 0
MayDiffer(q) == Hi(q[2]) \in {12, 13}                          \* second data byte is unused
Translates1 ==
  (On({"translate1"}) /\ Hi(A[2]) \in 8..14 /\ A[3] < 128 /\ A[4] < 128) =>
    /\ (Res = <<>>) <=> (Hi(A[2]) = 11 /\ A[3] \in Reserved)
    /\ Res # <<>> =>
       LET q == Res[1] IN
       /\ Group(q) = Lo(A[1]) /\ Chan(q) = Lo(A[2])
       /\ Op = "t121" => IF Silent(A) THEN q = One(Lo(A[1]), 128, Lo(A[2]), A[3], 64)
                         ELSE q = P16(IF MayDiffer(A) THEN [A EXCEPT ![4] = 0] ELSE A)
       /\ Op = "t12" => /\ NoteOn(q) = NoteOn(P16(A)) /\ NoteOff(q) = NoteOff(P16(A))
                        /\ \A k \in 3..7 : Filters(q)[k] = Filters(P16(A))[k]
                        /\ Hi(A[2]) \in {8, 9} => Velocity(q) = Velocity(P16(A))
                        /\ Hi(A[2]) \in {10, 11} => Ctrl(q) = Ctrl(P16(A))
                        /\ Hi(A[2]) = 12 => Program(q) = Program(P16(A))
                        /\ Hi(A[2]) = 13 => Press(q) = Press(P16(A))
                        /\ Hi(A[2]) = 14 => Bend(q) = Bend(P16(A))
Translates2 == (On({"translate2"}) /\ Res # <<>>) =>
  LET q == Res[1] IN
  /\ Type(q) = 2 /\ Group(q) = Lo(A[1]) /\ Chan(q) = Lo(A[2]) /\ Hi(q[2]) = Hi(A[2]) /\ q[3] < 128 /\ q[4] < 128
  /\ NoteOn(q) = NoteOn(P16(A)) /\ NoteOff(q) = NoteOff(P16(A))
  /\ Hi(A[2]) \in 8..11 => q[3] = B7(A[3])
  /\ There1(q) = Res                                           \* translating again changes nothing
\* C16: a message is of one kind
OneKind == (On({"read1", "read2"}) /\ Op = "cv.filters") =>
  LET f == Res[1] IN
  /\ Cardinality({k \in 1..10 : f[k] = 1} \cup {k \in 12..13 : f[k] = 1}) = (IF Hi(A[2]) \in (IF Family = "read1" THEN 8..14 ELSE {0, 1, 2, 3, 6} \cup 8..14) THEN 1 ELSE 0)
  /\ f[11] <= f[10] /\ f[14] <= f[1] /\ f[15] <= f[8] /\ f[16] <= f[8] /\ f[15] + f[16] < 2
\* C19 .. C21: read back what was written
SystemLaw == On({"system"}) =>
  LET p == Res[1] IN
  /\ Op \in {"sys", "sys1", "sys0"} => /\ Res[2][1] = A[1] /\ Res[2][2] = A[2] /\ Midi1Protocol(p)
                                       /\ Res[2][3] = (IF Len(A) > 2 THEN A[3] ELSE 0) /\ Res[2][4] = (IF Len(A) > 3 THEN A[4] ELSE 0)
  /\ Op = "songpos" => Res[2][5] = A[2] /\ Res[2][2] = 242
  /\ Op \in {"util", "jr"} => Type(p) = 0 /\ SubSeq(p, 3, 4) = Call[3]
FlexLaw == On({"flex"}) =>
  LET p == Res[1]  v == FlexView(p) IN
  /\ Type(p) = 13 /\ Len(p) = 16 /\ Group(p) = A[1]
  /\ Op = "flex" => v[1] = A /\ v[2] = Call[3]
  /\ Op = "flex.text" => v[1] = A /\ v[3] = Call[3]
  /\ Op = "flex.tempo" => SubSeq(v[2], 1, 4) = Call[3] /\ v[1] = <<A[1], 0, 1, 0, 0, 0>>
  /\ Op = "flex.key" => v[1] = <<A[1], 0, A[2], A[3], 0, 5>> /\ Hi(p[5]) = A[4] /\ Lo(p[5]) = A[5]
StreamLaw == On({"stream"}) =>
  LET v == StreamViews(Res[1]) IN
  /\ v[1] = <<1>>
  /\ Op = "st.disc" => v[2] = <<A[2], A[3], A[1], B(A[1], 0), B(A[1], 1), B(A[1], 2), B(A[1], 3), B(A[1], 4)>> /\ v[3] = <<A[2], A[3]>>
  /\ Op = "st.info" => v[4] = <<A[5], A[6], A[1], A[2], A[3], A[4]>>
  /\ Op = "st.ident" => v[6] = Call[3] /\ v[7] = A
  /\ Op = "st.name" => v[8] = A /\ v[9] = Call[3]
  /\ Op = "st.pid" => v[10] = A /\ v[11] = Call[3]
  /\ Op \in {"st.req", "st.not"} => v[12] = A
  /\ Op = "st.fbd" => SubSeq(v[13], 1, 2) = A
  /\ Op = "st.fbi" => v[14] = <<1, A[1], A[2], 0, A[2], A[3], A[4], 0, 0>>
  /\ Op = "st.fbo" => LET o == Call[3] IN v[14] = <<o[1], A[1], o[2], o[3], IF o[4] = 0 THEN o[2] ELSE o[4], A[2], A[3], o[5], o[6]>>
  /\ Op = "st.fbn" => v[15] = A /\ v[16] = Call[3]
\* C22: the pieces of a name are the name
NamesLaw == On({"names"}) =>
  LET name == IF Op = "send.fbn" THEN Call[3] ELSE A
      cap  == IF Op = "send.fbn" THEN 13 ELSE 14
      n    == Len(Res) \div 3 IN
  /\ Cat([k \in 1..n |-> Res[3 * k - 1]]) = name
  /\ \A k \in 1..n : LET p == Res[3 * k - 2] IN
       /\ Type(p) = 15 /\ StFormat(p) = (IF n = 1 THEN 0 ELSE IF k = 1 THEN 1 ELSE IF k = n THEN 3 ELSE 2)
       /\ Res[3 * k][1] = StFormat(p)
       /\ k < n => Len(Res[3 * k - 1]) = cap
       /\ n > 1 => Len(Res[3 * k - 1]) > 0
       /\ Op = "send.fbn" => p[3] = A[1] /\ Res[3 * k][2] = A[1]

-----------------------------------------------------------------------------
Extra == IF Family # "container" THEN <<>>
         ELSE << << "p.print", s.p >>, << "p.parse", Text(s.p) >>, << "p.eq", s.p, Before >>, << "p.eq", s.p, P16(Sig(s.p)) >> >>
Behaviour == [ case |-> hist \o Extra,
               expect |-> outs \o [k \in DOMAIN Extra |-> ApiStep(s, Ev(Extra[k])).want] ]
Show == (Print0 /\ Len(hist) = MaxLen) => PrintT("BEHAVIOUR " \o ToJson(Behaviour))
=============================================================================
