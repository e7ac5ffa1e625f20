-------------------------------- MODULE CiApi -------------------------------
(* Calls that build and read MIDI-CI and universal SysEx messages.            *)
EXTENDS CapabilityInquiry
ApiStart == <<>>                           \* data of the message under construction
Ans(s, ev, out) == [st |-> s, ok |-> ev.r = out, want |-> out]
Shown(d) == << NonRealtime, d, << d[4], Get28(d, 5), Get28(d, 9), d[1], 126 * 256 + 13, d[3] >> >> \o Views(NonRealtime, d)
M(s, ev, d) == Ans(s, ev, Shown(d))
Now(ev, d) == [st |-> d, ok |-> ev.r = Shown(d), want |-> Shown(d)]
ShownU(id, d) == << id, d, << IF d = <<>> THEN 255 ELSE d[1], IF Len(d) < 2 THEN 0 ELSE id[1] * 256 + d[2], IF Len(d) > 2 THEN d[3] ELSE 0 >> >>
                 \o Views(id, d)
U(s, ev, d) == Ans(s, ev, ShownU(NonRealtime, d))
Idn(x, y) == [id |-> x, family |-> y[1], model |-> y[2], revision |-> y[3]]
Over(d, k, e) == [j \in DOMAIN d |-> IF j \in k..(k + Len(e) - 1) THEN e[j - k + 1] ELSE d[j]]

Universal(s, ev, a) ==
  CASE ev.o = "u.new"  -> Ans(s, ev, ShownU(a[1], a[2]))
    [] ev.o = "u.dev"  -> Ans(s, ev, ShownU(a[1], Over(a[2], 1, a[3])))
    [] ev.o = "u.req"  -> U(s, ev, IdRequest(a[1][1]))
    [] ev.o = "u.req0" -> U(s, ev, IdRequest(127))
    [] ev.o = "u.rep"  -> U(s, ev, IdReply(a[3][1], Idn(a[1], a[2])))
    [] ev.o = "u.rep0" -> U(s, ev, IdReply(127, Idn(a[1], a[2])))

Class(s, ev, a, h) ==
  CASE ev.o = "c.new"   -> Now(ev, Ci2(h[3], a[2][1], h[1], h[2], <<>>))
    [] ev.o = "c.new0"  -> Now(ev, Ci2(127, a[2][1], h[1], h[2], <<>>))
    [] ev.o = "c.newp"  -> Now(ev, Ci2(h[3], a[2][1], h[1], h[2], <<>>))
    [] ev.o = "c.newp0" -> Now(ev, Ci2(127, a[2][1], h[1], h[2], <<>>))
    [] ev.o = "c.src"   -> Now(ev, Over(s, 5, Put28(h[1])))
    [] ev.o = "c.dst"   -> Now(ev, Over(s, 9, Put28(h[1])))
    [] ev.o = "c.dev"   -> Now(ev, Over(s, 1, h))
    [] ev.o = "c.add"   -> Now(ev, s \o h)

Management(s, ev, a, h) ==
  CASE ev.o = "d.inq"  -> M(s, ev, Ci2(127, 112, h[1], Broadcast, PutIdentity(Idn(a[2], a[3])) \o << a[4][1] >> \o Put28(a[4][2]) \o << a[4][3] >>))
    [] ev.o = "d.inq0" -> M(s, ev, Ci2(127, 112, h[1], Broadcast, PutIdentity(Idn(a[2], a[3])) \o << a[4][1] >> \o Put28(a[4][2]) \o << 0 >>))
    [] ev.o = "d.inq1" -> M(s, ev, Ci(127, 112, 1, h[1], Broadcast) \o PutIdentity(Idn(a[2], a[3])) \o << a[4][1] >> \o Put28(a[4][2]))
    [] ev.o = "d.rep"  -> M(s, ev, Ci2(127, 113, h[1], h[2], PutIdentity(Idn(a[2], a[3])) \o << a[4][1] >> \o Put28(a[4][2]) \o << a[4][3], a[4][4] >>))
    [] ev.o = "d.rep0" -> M(s, ev, Ci2(127, 113, h[1], h[2], PutIdentity(Idn(a[2], a[3])) \o << a[4][1] >> \o Put28(a[4][2]) \o << a[4][3], 127 >>))
    [] ev.o = "d.rep1" -> M(s, ev, Ci(127, 113, 1, h[1], h[2]) \o PutIdentity(Idn(a[2], a[3])) \o << a[4][1] >> \o Put28(a[4][2]))
    [] ev.o = "e.inq"  -> M(s, ev, Ci2(127, 114, h[1], h[2], << a[2][1] >>))
    [] ev.o = "e.rep"  -> M(s, ev, Ci2(127, 115, h[1], h[2], << a[2][1] >> \o Put14(Len(a[3])) \o a[3]))
    [] ev.o = "n.ack"  -> M(s, ev, Ci2(h[3], 125, h[1], h[2], NackLoad(a[2], a[3], a[4])))
    [] ev.o = "n.nak"  -> M(s, ev, Ci2(h[3], 127, h[1], h[2], NackLoad(a[2], a[3], a[4])))
    [] ev.o = "n.nak1" -> M(s, ev, Ci(h[3], 127, 1, h[1], h[2]))
    \* answering a received message: source and destination change places
    [] ev.o = "n.nakv" -> LET d == a[2] IN
         M(s, ev, Ci2(d[1], 127, Get28(d, 9), Get28(d, 5), NackLoad(<< d[3] >> \o a[3], a[4], a[5])))
    [] ev.o = "n.nakv1" -> LET d == a[2] IN M(s, ev, Ci(d[1], 127, 1, Get28(d, 9), Get28(d, 5)))
    [] ev.o = "n.inv"  -> M(s, ev, Ci2(127, 126, h[1], Broadcast, Put28(a[2][1])))

ProfileList(x) == Put14(Len(x) \div 5) \o x
Profiles(s, ev, a, h) ==
  CASE ev.o = "p.inq"  -> M(s, ev, Ci2(h[3], 32, h[1], h[2], <<>>))
    [] ev.o = "p.inq0" -> M(s, ev, Ci2(127, 32, h[1], h[2], <<>>))
    [] ev.o = "p.rep"  -> M(s, ev, Ci2(h[3], 33, h[1], h[2], ProfileList(a[2]) \o ProfileList(a[3])))
    [] ev.o = "p.rep0" -> M(s, ev, Ci2(127, 33, h[1], h[2], ProfileList(a[2]) \o ProfileList(a[3])))
    [] ev.o = "p.on"   -> M(s, ev, Ci2(h[3], 34, h[1], h[2], a[2] \o Put14(a[3][1])))
    [] ev.o = "p.off"  -> M(s, ev, Ci2(h[3], 35, h[1], h[2], a[2] \o << 0, 0 >>))
    [] ev.o = "p.ena"  -> M(s, ev, Ci2(h[3], 36, h[1], h[2], a[2] \o Put14(a[3][1])))
    [] ev.o = "p.dis"  -> M(s, ev, Ci2(h[3], 37, h[1], h[2], a[2] \o Put14(a[3][1])))
    [] ev.o = "p.add"  -> M(s, ev, Ci2(h[3], 38, h[1], h[2], a[2]))
    [] ev.o = "p.add0" -> M(s, ev, Ci2(127, 38, h[1], h[2], a[2]))
    [] ev.o = "p.rem"  -> M(s, ev, Ci2(h[3], 39, h[1], h[2], a[2]))
    [] ev.o = "p.rem0" -> M(s, ev, Ci2(127, 39, h[1], h[2], a[2]))
    [] ev.o = "p.dest" -> Ans(s, ev, << << h[1], h[2], h[1], 1, 126, 0, 127, 0, Bool(h[2] = 1), Bool(h = << 126, 0 >>) >> >>)
    [] ev.o = "p.eq"   -> Ans(s, ev, << << Bool(a[1] = a[2]) >> >>)
    [] ev.o = "p.dinq" -> M(s, ev, Ci2(h[3], 40, h[1], h[2], a[2] \o a[3]))
    [] ev.o = "p.dinq0" -> M(s, ev, Ci2(127, 40, h[1], h[2], a[2] \o a[3]))
    [] ev.o = "p.drep" -> M(s, ev, Ci2(h[3], 41, h[1], h[2], a[2] \o a[3] \o Put14(Len(a[4])) \o a[4]))
    [] ev.o = "p.drep0" -> M(s, ev, Ci2(127, 41, h[1], h[2], a[2] \o a[3] \o Put14(Len(a[4])) \o a[4]))
    [] ev.o = "p.psd"  -> M(s, ev, Ci2(h[3], 47, h[1], h[2], a[2] \o Put28(Len(a[3])) \o a[3]))
    [] ev.o = "p.psd0" -> M(s, ev, Ci2(127, 47, h[1], h[2], a[2] \o Put28(Len(a[3])) \o a[3]))

PeM(s, ev, sub, header, n, t, chunk) ==
  \* the device id, or device and request id, may be left to their defaults
  LET h == ev.i[1]  q == ev.i[2]
      left == IF Len(q) > 1 THEN q[2] ELSE 0 IN
  M(s, ev, Ci2(IF left > 0 THEN 127 ELSE h[3], sub, h[1], h[2], PeLoad(IF left > 1 THEN 0 ELSE q[1], header, n, t, chunk)))
StatusOnly(x) == Json(T_status, Numeral(x), <<>>)
StatusText(x, t) == Json(T_status, Numeral(x), << T_message, t >>)
Resource(x, o) == Json(T_resource, Quote(x), o)
Properties(s, ev, a, h) ==
  CASE ev.o = "x.caps"  -> M(s, ev, Ci2(h[3], 48, h[1], h[2], << a[2][1], 0, 0 >>))
    [] ev.o = "x.caps0" -> M(s, ev, Ci2(127, 48, h[1], h[2], << 1, 0, 0 >>))
    [] ev.o = "x.capr"  -> M(s, ev, Ci2(h[3], 49, h[1], h[2], << a[2][1], 0, 0 >>))
    [] ev.o = "x.capr0" -> M(s, ev, Ci2(127, 49, h[1], h[2], << 1, 0, 0 >>))
    [] ev.o = "x.data"  -> PeM(s, ev, a[3][1], a[4], a[3][3], a[3][4], a[5])
    [] ev.o = "x.get"   -> PeM(s, ev, 52, Resource(a[3], <<>>), 1, 1, <<>>)
    [] ev.o = "x.geto"  -> PeM(s, ev, 52, Resource(a[3], SubSeq(a, 4, Len(a))), 1, 1, <<>>)
    [] ev.o = "x.getr"  -> PeM(s, ev, 53, a[4], a[3][1], a[3][2], a[5])
    [] ev.o = "x.getrs" -> PeM(s, ev, 53, StatusOnly(a[3][4]), a[3][1], a[3][2], a[5])
    [] ev.o = "x.getrm" -> PeM(s, ev, 53, StatusText(a[3][4], a[4]), a[3][1], a[3][2], a[5])
    [] ev.o = "x.getrc" -> PeM(s, ev, 53, <<>>, a[3][1], a[3][2], a[5])
    [] ev.o = "x.set"   -> PeM(s, ev, 54, Resource(a[4], <<>>), a[3][1], a[3][2], a[5])
    [] ev.o = "x.seto"  -> PeM(s, ev, 54, Resource(a[4], SubSeq(a, 6, Len(a))), a[3][1], a[3][2], a[5])
    [] ev.o = "x.setc"  -> PeM(s, ev, 54, <<>>, a[3][1], a[3][2], a[5])
    [] ev.o = "x.setr"  -> PeM(s, ev, 55, StatusOnly(a[3][1]), 1, 1, <<>>)
    [] ev.o = "x.setrm" -> PeM(s, ev, 55, StatusText(a[3][1], a[4]), 1, 1, <<>>)
    [] ev.o = "x.subr"  -> PeM(s, ev, 57, StatusOnly(a[3][1]), 1, 1, <<>>)
    [] ev.o = "x.subrm" -> PeM(s, ev, 57, StatusText(a[3][1], a[4]), 1, 1, <<>>)
    [] ev.o = "x.not"   -> PeM(s, ev, 63, StatusOnly(a[3][1]), 1, 1, <<>>)
    [] ev.o = "x.notm"  -> PeM(s, ev, 63, StatusText(a[3][1], a[4]), 1, 1, <<>>)
    [] ev.o = "x.sub"   -> PeM(s, ev, 56, Resource(a[4], << T_command, a[6], T_subscribeId, a[7] >>), 0, 0, <<>>)
    [] ev.o = "x.subn"  -> PeM(s, ev, 56, Resource(a[4], << T_command, a[6], T_subscribeId, a[7] >>), a[3][1], a[3][2], a[5])
    [] ev.o = "x.subc"  -> PeM(s, ev, 56, <<>>, a[3][1], a[3][2], a[5])
    [] ev.o = "j.s"  -> Ans(s, ev, << Json(a[1], Quote(a[2]), <<>>) >>)
    [] ev.o = "j.i"  -> Ans(s, ev, << Json(a[1], Numeral(a[2][1]), <<>>) >>)
    [] ev.o = "j.so" -> Ans(s, ev, << Json(a[1], Quote(a[2]), SubSeq(a, 3, Len(a))) >>)
    [] ev.o = "j.io" -> Ans(s, ev, << Json(a[1], Numeral(a[2][1]), SubSeq(a, 3, Len(a))) >>)

Process(s, ev, a, h) ==
  CASE ev.o = "q.caps"  -> M(s, ev, Ci2(h[3], 64, h[1], h[2], <<>>))
    [] ev.o = "q.caps0" -> M(s, ev, Ci2(127, 64, h[1], h[2], <<>>))
    [] ev.o = "q.capr"  -> M(s, ev, Ci2(h[3], 65, h[1], h[2], a[2]))
    [] ev.o = "q.capr0" -> M(s, ev, Ci2(127, 65, h[1], h[2], a[2]))
    [] ev.o = "q.inq"   -> M(s, ev, Ci2(h[3], 66, h[1], h[2], << a[2][1], a[2][2], 0, a[2][3], a[2][4] >>))
    [] ev.o = "q.inq0"  -> M(s, ev, Ci2(127, 66, h[1], h[2], << a[2][1], a[2][2], 0, a[2][3], a[2][4] >>))
    [] ev.o = "q.rep"   -> M(s, ev, Ci2(h[3], 67, h[1], Broadcast, << a[2][1], 0, a[2][2], a[2][3] >>))
    [] ev.o = "q.rep0"  -> M(s, ev, Ci2(127, 67, h[1], Broadcast, << a[2][1], 0, a[2][2], a[2][3] >>))
    [] ev.o = "q.end"   -> M(s, ev, Ci2(h[3], 68, h[1], Broadcast, <<>>))
    [] ev.o = "q.end0"  -> M(s, ev, Ci2(127, 68, h[1], Broadcast, <<>>))

Kind(o) == SubSeq(o, 1, 2)
ApiStep(s, ev) ==
  LET a == ev.i  h == IF a = <<>> THEN <<>> ELSE a[1] IN
  IF ev.o = "view" THEN Ans(s, ev, Views(a[1], a[2]))
  ELSE IF ev.o = "view8" THEN Ans(s, ev, <<>>)
  ELSE CASE Kind(ev.o) = "u." -> Universal(s, ev, a)
         [] Kind(ev.o) = "c." -> Class(s, ev, a, h)
         [] Kind(ev.o) \in {"d.", "e.", "n."} -> Management(s, ev, a, h)
         [] Kind(ev.o) = "p." -> Profiles(s, ev, a, h)
         [] Kind(ev.o) \in {"x.", "j."} -> Properties(s, ev, a, h)
         [] Kind(ev.o) = "q." -> Process(s, ev, a, h)
=============================================================================
