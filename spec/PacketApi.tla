------------------------------ MODULE PacketApi -----------------------------
(* Calls on packets: every operation with what it returns and how it changes the
   packet under construction.                                                 *)
EXTENDS OtherPackets
ApiStart == [p |-> Zeros(16), s7 |-> New7(0, 0), s8 |-> New8(0, 0, 0), sm |-> Stream(0, 0, <<>>)]
Ans(s, ev, out) == [st |-> s, ok |-> ev.r = out, want |-> out]
Rel(s, good, w) == [st |-> s, ok |-> good, want |-> w]
Obs(p) == << p, << Type(p), Size(p), Group(p), p[2], p[2], p[3], p[4], Bool(HasChannel(p)), IF HasChannel(p) THEN Chan(p) ELSE -1 >>,
             p, [k \in 1..16 |-> B7(p[k])],
             << Bool(Type(p) = 0), Bool(Type(p) = 1), Bool(IsCv(p)), Bool(Type(p) \in {3, 5}), Bool(Midi1Protocol(p)) >> >>
Now(s, ev, q) == [st |-> [s EXCEPT !.p = q], ok |-> ev.r = Obs(q), want |-> Obs(q)]
Now7(s, ev, q) == [st |-> [s EXCEPT !.s7 = q], ok |-> ev.r = Obs7(q), want |-> Obs7(q)]
Now8(s, ev, q) == [st |-> [s EXCEPT !.s8 = q], ok |-> ev.r = Obs8(q), want |-> Obs8(q)]
NowS(s, ev, q) == LET o == << q, <<StFormat(q)>> >> IN [st |-> [s EXCEPT !.sm = q], ok |-> ev.r = o, want |-> o]
A1(s, ev, q) == Ans(s, ev, << q, View1(q) >>)
A2(s, ev, q) == Ans(s, ev, << q >> \o View2(q))
Lens(ps) == [k \in DOMAIN ps |-> Len(ps[k]) \div 4]

Container(s, ev, a, h) ==
  CASE ev.o = "p.new"   -> Now(s, ev, P16(h))
    [] ev.o = "p.type"  -> Now(s, ev, [s.p EXCEPT ![1] = Byte(h[1], Lo(@))])
    [] ev.o = "p.group" -> Now(s, ev, [s.p EXCEPT ![1] = Byte(Hi(@), h[1])])
    [] ev.o = "p.byte"  -> Now(s, ev, Put(s.p, h[1], h[2]))
    [] ev.o = "p.byte7" -> Now(s, ev, Put(s.p, h[1], B7(h[2])))
    [] ev.o = "p.reset" -> Now(s, ev, Zeros(16))
    [] ev.o = "p.copy"  -> Now(s, ev, s.p)
    [] ev.o = "p.eq"    -> LET e == Bool(Same(P16(h), P16(a[2]))) IN Ans(s, ev, << << e, 1 - e, e, 1 - e, 1 >> >>)
    [] ev.o = "p.print" -> Ans(s, ev, << Text(P16(h)) >>)
    [] ev.o = "p.print2" -> Ans(s, ev, << Text(P16(h)) \o <<47, 49, 48, 47>> \o Text(P16(a[2])) >>)
    [] ev.o = "p.trip" -> \* through streams others have set up: the packet arrives, their settings stay
         Ans(s, ev, << <<1, 1, 1>>, Sig(P16(h)) >>)
    [] ev.o = "p.parse" -> LET ps == PacketsIn(Fields(h)) IN Ans(s, ev, << Lens(ps) >> \o ps)

Voice(s, ev, a, h) ==
  CASE ev.o \in {"m1", "m1c"} -> A1(s, ev, One(h[1], h[2], h[3], h[4], h[5]))
    [] ev.o = "m1p" -> A1(s, ev, P16(h))
    [] ev.o = "m2p" -> A2(s, ev, P16(h))
    [] ev.o = "m1.off"   -> A1(s, ev, One(h[1], 128, h[2], h[3], V7(a[2])))
    [] ev.o = "m1.off0"  -> A1(s, ev, One(h[1], 128, h[2], h[3], 64))
    [] ev.o = "m1.on"    -> A1(s, ev, One(h[1], 144, h[2], h[3], V7(a[2])))
    [] ev.o = "m1.poly"  -> A1(s, ev, One(h[1], 160, h[2], h[3], C7(a[2])))
    [] ev.o = "m1.cc"    -> A1(s, ev, One(h[1], 176, h[2], h[3], C7(a[2])))
    [] ev.o = "m1.pc"    -> A1(s, ev, One(h[1], 192, h[2], h[3], 0))
    [] ev.o = "m1.press" -> A1(s, ev, One(h[1], 208, h[2], C7(a[2]), 0))
    [] ev.o = "m1.bend"  -> A1(s, ev, Bend1(h[1], h[2], C14(a[2])))
    [] ev.o \in {"m2", "m2c"} -> A2(s, ev, Two(h[1], h[2], h[3], h[4], h[5], a[2]))
    [] ev.o = "m2.off"   -> A2(s, ev, Two(h[1], 128, h[2], h[3], h[4], a[2] \o a[3]))
    [] ev.o = "m2.off0"  -> A2(s, ev, Two(h[1], 128, h[2], h[3], 0, a[2] \o <<0, 0>>))
    [] ev.o = "m2.on"    -> A2(s, ev, Two(h[1], 144, h[2], h[3], h[4], a[2] \o a[3]))
    [] ev.o = "m2.on0"   -> A2(s, ev, Two(h[1], 144, h[2], h[3], 0, a[2] \o <<0, 0>>))
    [] ev.o = "m2.onp"   -> A2(s, ev, Two(h[1], 144, h[2], h[3], 3, a[2] \o a[3]))
    [] ev.o = "m2.poly"  -> A2(s, ev, Two(h[1], 160, h[2], h[3], 0, a[2]))
    [] ev.o = "m2.rpnc"  -> A2(s, ev, Two(h[1], 0, h[2], h[3], h[4], a[2]))
    [] ev.o = "m2.apnc"  -> A2(s, ev, Two(h[1], 16, h[2], h[3], h[4], a[2]))
    [] ev.o = "m2.pnm"   -> A2(s, ev, Two(h[1], 240, h[2], h[3], h[4], Zeros(4)))
    [] ev.o = "m2.cc"    -> A2(s, ev, Two(h[1], 176, h[2], h[3], 0, a[2]))
    [] ev.o = "m2.rc"    -> A2(s, ev, Two(h[1], 32, h[2], h[3], h[4], a[2]))
    [] ev.o = "m2.ac"    -> A2(s, ev, Two(h[1], 48, h[2], h[3], h[4], a[2]))
    [] ev.o = "m2.rrc"   -> A2(s, ev, Two(h[1], 64, h[2], h[3], h[4], a[2]))
    [] ev.o = "m2.rac"   -> A2(s, ev, Two(h[1], 80, h[2], h[3], h[4], a[2]))
    [] ev.o = "m2.pc"    -> A2(s, ev, Two(h[1], 192, h[2], 0, 0, PcWord(h[3], 0)))
    [] ev.o = "m2.pcb"   -> A2(s, ev, Two(h[1], 192, h[2], 0, 1, PcWord(h[3], h[4])))
    [] ev.o = "m2.press" -> A2(s, ev, Two(h[1], 208, h[2], 0, 0, a[2]))
    [] ev.o = "m2.bend"  -> A2(s, ev, Two(h[1], 224, h[2], 0, 0, a[2]))
    [] ev.o = "m2.pnb"   -> A2(s, ev, Two(h[1], 96, h[2], h[3], 0, a[2]))

Reading(s, ev, a, h) ==
  LET p == P16(h) IN
  CASE ev.o = "cv.views"   -> Ans(s, ev, << View1(p) >> \o View2(p))
    [] ev.o = "cv.filters" -> Ans(s, ev, << Filters(p), [k \in 1..5 |-> Filters(p)[<<8, 9, 10, 12, 13>>[k]]], WithStatus(p), WithAttr(p, 144), WithAttr(p, 128) >>)
    [] ev.o = "cv.get"     -> Rel(s, GetOk(p, ev.r), <<p>>)
    [] ev.o = "t12"  -> Ans(s, ev, To2(p))
    [] ev.o = "t21"  -> Ans(s, ev, To1(p))
    [] ev.o = "t121" -> Ans(s, ev, There1(p))

Others(s, ev, a, h) ==
  CASE ev.o = "sys"  -> LET p == Sys(h[1], h[2], h[3], h[4]) IN Ans(s, ev, << p, SysView(p) >>)
    [] ev.o = "sys1" -> LET p == Sys(h[1], h[2], h[3], 0) IN Ans(s, ev, << p, SysView(p) >>)
    [] ev.o = "sys0" -> LET p == Sys(h[1], h[2], 0, 0) IN Ans(s, ev, << p, SysView(p) >>)
    [] ev.o = "songpos" -> LET p == Sys(h[1], 242, h[2] % 128, h[2] \div 128) IN Ans(s, ev, << p, SysView(p) >>)
    [] ev.o = "sysview" -> Ans(s, ev, << SysView(P16(h)) >>)
    [] ev.o = "util" -> LET p == Util(h[1], a[2]) IN Ans(s, ev, << p >> \o UtilView(p))
    [] ev.o = "utilview" -> Ans(s, ev, UtilView(P16(h)))
    [] ev.o = "jr" -> LET p == Util(IF h[1] = 1 THEN 32 ELSE 16, a[2]) IN Ans(s, ev, << p, a[2] >> \o UtilView(p))
    [] ev.o = "dat.new" -> Ans(s, ev, << P16(<< 48, h[1] >>), P16(<< 80, h[1] >>) >>)
    [] ev.o = "ctors" -> Ans(s, ev, Ctors(h, a[2], a[3]))
    [] ev.o = "plain" -> Ans(s, ev, << P16(<<16>>), P16(<<0>>), P16(<<48>>), P16(<<80>>), P16(<<48>>), P16(<<80, 1>>), P16(<<208>>), P16(<<240>>) >>)
    [] ev.o = "s7.new"  -> Now7(s, ev, New7(h[1], h[2]))
    [] ev.o = "s7.add"  -> Now7(s, ev, Add7(s.s7, h[1]))
    [] ev.o = "s7.set"  -> Now7(s, ev, Put(s.s7, 2 + h[1], B7(h[2])))
    [] ev.o = "s7.size" -> Now7(s, ev, [s.s7 EXCEPT ![2] = Hi(@) * 16 + h[1]])
    [] ev.o = "s8.new"  -> Now8(s, ev, New8(h[1], h[2], h[3]))
    [] ev.o = "s8.add"  -> Now8(s, ev, Add8(s.s8, h[1]))
    [] ev.o = "s8.set"  -> Now8(s, ev, Put(s.s8, 3 + h[1], h[2]))
    [] ev.o = "s8.size" -> Now8(s, ev, [s.s8 EXCEPT ![2] = Hi(@) * 16 + h[1] + 1])
    [] ev.o = "s8.id"   -> Now8(s, ev, Put(s.s8, 2, h[1]))
    [] ev.o = "sx.views" -> LET p == P16(h) IN Ans(s, ev, Sx7View(p) \o Sx8View(p) \o << << Bool(Type(p) = 3), Bool(Type(p) = 5) >> >>)

FlexStep(s, ev, a, h) ==
  CASE ev.o = "flex"  -> Ans(s, ev, FlexObs(Flex(h[1], h[2], h[3], h[4], h[5], h[6], a[2])))
    [] ev.o = "flex0" -> Ans(s, ev, FlexObs(Flex(h[1], h[2], h[3], h[4], h[5], h[6], <<>>)))
    [] ev.o = "flex.text"  -> Ans(s, ev, FlexObs(Flex(h[1], h[2], h[3], h[4], h[5], h[6], a[2])))
    [] ev.o = "flex.tempo" -> Ans(s, ev, FlexObs(Flex(h[1], 0, 1, 0, 0, 0, a[2])))
    [] ev.o = "flex.sig"   -> Ans(s, ev, FlexObs(Flex(h[1], 0, 1, 0, 0, 1, << h[2], h[3], h[4] >>)))
    [] ev.o = "flex.metro" -> Ans(s, ev, FlexObs(Flex(h[1], 0, 1, 0, 0, 2, SubSeq(h, 2, 7))))
    [] ev.o = "flex.key"   -> Ans(s, ev, FlexObs(Flex(h[1], 0, h[2], h[3], 0, 5, << Byte(h[4], h[5]) >>)))
    [] ev.o = "flex.chord" -> Ans(s, ev, FlexObs(Flex(h[1], 0, h[2], h[3], 0, 6, a[2])))
    [] ev.o = "flex.view"  -> Ans(s, ev, FlexView(P16(h)))

StreamStep(s, ev, a, h) ==
  CASE ev.o = "st.disc"  -> Ans(s, ev, StObs(Stream(0, 0, << h[2], h[3], 0, 0, 0, h[1] >>)))
    [] ev.o = "st.disc0" -> Ans(s, ev, StObs(Stream(0, 0, << 1, 1, 0, 0, 0, h[1] >>)))
    [] ev.o = "st.info"  -> Ans(s, ev, StObs(Stream(0, 1, << h[5], h[6], h[1] + 128 * h[2], 0, h[3], h[4] >>)))
    [] ev.o = "st.info0" -> Ans(s, ev, StObs(Stream(0, 1, << 1, 1, h[1] + 128 * h[2], 0, h[3], h[4] >>)))
    [] ev.o = "st.ident" -> Ans(s, ev, StObs(Stream(0, 2, Ident(a[2], h[1], h[2], h[3]))))
    [] ev.o = "st.name"  -> Ans(s, ev, StObs(Stream(h[1], 3, a[2])))
    [] ev.o = "st.pid"   -> Ans(s, ev, StObs(Stream(h[1], 4, a[2])))
    [] ev.o = "st.req"   -> Ans(s, ev, StObs(Stream(0, 5, << h[1], h[2] >>)))
    [] ev.o = "st.req0"  -> Ans(s, ev, StObs(Stream(0, 5, << h[1] >>)))
    [] ev.o = "st.not"   -> Ans(s, ev, StObs(Stream(0, 6, << h[1], h[2] >>)))
    [] ev.o = "st.not0"  -> Ans(s, ev, StObs(Stream(0, 6, << h[1] >>)))
    [] ev.o = "st.fbd"   -> Ans(s, ev, StObs(Stream(0, 16, << h[1], h[2] >>)))
    [] ev.o = "st.fbi"   -> Ans(s, ev, StObs(FbInfo(h[1], 1, h[2], 0, 0, h[3], h[4], 0, 0)))
    [] ev.o = "st.fbi1"  -> Ans(s, ev, StObs(FbInfo(h[1], 1, h[2], 0, 0, h[3], 1, 0, 0)))
    [] ev.o = "st.fbo"   -> LET o == a[2] IN Ans(s, ev, StObs(FbInfo(h[1], o[1], o[2], o[3], o[4], h[2], h[3], o[5], o[6])))
    [] ev.o = "st.fbo0"  -> Ans(s, ev, StObs(FbInfo(h[1], 1, 3, 0, 0, h[2], 1, 0, 0)))
    [] ev.o = "st.fbn"   -> Ans(s, ev, StObs(Stream(h[1], 18, << h[2] >> \o a[2])))
    [] ev.o = "st.view"  -> Ans(s, ev, StreamViews(P16(h)))
    [] ev.o = "st.new"   -> NowS(s, ev, Stream(h[2], h[1], <<>>))
    [] ev.o = "st.fmt"   -> NowS(s, ev, [s.sm EXCEPT ![1] = Hi(@) * 16 + h[1] * 4 + (@ % 4)])
    [] ev.o = "st.byte"  -> NowS(s, ev, Put(s.sm, h[1], h[2]))
    [] ev.o = "send.name" -> Ans(s, ev, NameSent(3, <<>>, h, 14))
    [] ev.o = "send.pid"  -> Ans(s, ev, NameSent(4, <<>>, h, 14))
    [] ev.o = "send.fbn"  -> Ans(s, ev, NameSent(18, << h[1] >>, a[2], 13))

ContainerOps == {"p.new", "p.type", "p.group", "p.byte", "p.byte7", "p.reset", "p.copy", "p.eq", "p.print", "p.print2", "p.trip", "p.parse"}
ReadingOps == {"cv.views", "cv.filters", "cv.get", "t12", "t21", "t121"}
OtherOps == {"sys", "sys1", "sys0", "songpos", "sysview", "util", "utilview", "plain", "ctors", "jr", "dat.new", "s7.new", "s7.add", "s7.set", "s7.size",
             "s8.new", "s8.add", "s8.set", "s8.size", "s8.id", "sx.views"}
FlexOps == {"flex", "flex0", "flex.text", "flex.tempo", "flex.sig", "flex.metro", "flex.key", "flex.chord", "flex.view"}
StreamOps == {"st.disc", "st.disc0", "st.info", "st.info0", "st.ident", "st.name", "st.pid", "st.req", "st.req0", "st.not", "st.not0",
              "st.fbd", "st.fbi", "st.fbi1", "st.fbo", "st.fbo0", "st.fbn", "st.view", "st.new", "st.fmt", "st.byte",
              "send.name", "send.pid", "send.fbn"}
ApiStep(s, ev) ==
  LET a == ev.i  h == IF a = <<>> THEN <<>> ELSE a[1] IN
  IF ev.o \in ContainerOps THEN Container(s, ev, a, h)
  ELSE IF ev.o \in ReadingOps THEN Reading(s, ev, a, h)
  ELSE IF ev.o \in OtherOps THEN Others(s, ev, a, h)
  ELSE IF ev.o \in FlexOps THEN FlexStep(s, ev, a, h)
  ELSE IF ev.o \in StreamOps THEN StreamStep(s, ev, a, h)
  ELSE Voice(s, ev, a, h)
=============================================================================
