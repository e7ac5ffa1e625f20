------------------------- MODULE CapabilityInquiry -------------------------
(* Universal SysEx and MIDI-CI messages: how each is laid out, and which
   messages each view is offered for.  A message is an id (3 bytes) and data;
   data byte n of the format is d[n + 1].                                    *)
EXTENDS Sysex

NonRealtime == <<126, 0, 0>>
Realtime    == <<127, 0, 0>>
Broadcast   == 268435455

-----------------------------------------------------------------------------
(* Universal SysEx *)
IsUniversal(id, d) == id \in {NonRealtime, Realtime} /\ Len(d) >= 2
UType(id, d)    == IF IsUniversal(id, d) THEN id[1] * 256 + d[2] ELSE 0
USubtype(id, d) == IF IsUniversal(id, d) /\ Len(d) > 2 THEN d[3] ELSE 0
UDevice(id, d)  == IF IsUniversal(id, d) THEN d[1] ELSE 255
GeneralInfo(id, d, sub) == UType(id, d) = 126 * 256 + 6 /\ USubtype(id, d) = sub
IsIdRequest(id, d) == GeneralInfo(id, d, 1)
IsIdReply(id, d)   == GeneralInfo(id, d, 2) /\ (Len(d) = 14 \/ (Len(d) = 12 /\ d[4] # 0))

IdRequest(dev) == << dev, 6, 1 >>
IdReply(dev, x) == << dev, 6, 2 >> \o (IF x.id[1] # 0 THEN << x.id[1] >> ELSE x.id)
                   \o Put14(x.family) \o Put14(x.model) \o Put28(x.revision)
IdOf(d) == LET o == IF d[4] # 0 THEN 5 ELSE 7 IN
           << IF d[4] # 0 THEN << d[4], 0, 0 >> ELSE << 0, d[5], d[6] >>,
              << Get14(d, o), Get14(d, o + 2), Get28(d, o + 4) >> >>

-----------------------------------------------------------------------------
(* MIDI-CI: header, then a payload that depends on the subtype and version *)
Ci(dev, sub, ver, src, dst) == << dev, 13, sub, ver >> \o Put28(src) \o Put28(dst)
Ci2(dev, sub, src, dst, payload) == Ci(dev, sub, 2, src, dst) \o payload

IsCi(id, d) == id = NonRealtime /\ Len(d) >= 12 /\ d[2] = 13
Is(id, d, subs, n) == IsCi(id, d) /\ d[3] \in subs /\ Len(d) >= 12 + n
Ver(d) == d[4]
Pl(d, k) == d[13 + k]                              \* payload byte k
Pl14(d, k) == Get14(d, 13 + k)
Pl28(d, k) == Get28(d, 13 + k)
Cut(d, k, n) == SubSeq(d, 13 + k, 12 + k + n)      \* n payload bytes from k

\* discovery 0x70, 0x71
IsDiscInq(id, d) == Is(id, d, {112}, 16) /\ (Ver(d) >= 2 => Len(d) >= 29)
IsDiscRep(id, d) == Is(id, d, {113}, 16) /\ (Ver(d) >= 2 => Len(d) >= 30)
Disc(d) == LET x == GetIdentity(d, 13) IN
  << x.id, << x.family, x.model, x.revision >>, << Pl(d, 11), Pl28(d, 12), IF Ver(d) >= 2 THEN Pl(d, 16) ELSE 0 >> >>
DiscR(d) == Disc(d) \o << << IF Ver(d) >= 2 THEN Pl(d, 17) ELSE 127 >> >>
\* endpoint information 0x72, 0x73
IsEpInq(id, d) == Is(id, d, {114}, 1)
IsEpRep(id, d) == Is(id, d, {115}, 3) /\ Len(d) >= 15 + Pl14(d, 1)
EpRep(d) == << << Pl(d, 0), Pl14(d, 1) >>, Cut(d, 3, Pl14(d, 1)) >>
\* ACK 0x7D, NAK 0x7F (a version 1 NAK has no payload), invalidate MUID 0x7E
IsNack(id, d, sub) == Is(id, d, {sub}, 10) /\ Len(d) >= 22 + Pl14(d, 8)
IsAck(id, d) == IsNack(id, d, 125)
IsNak(id, d) == IsNack(id, d, 127) /\ Ver(d) >= 2
Nack(d) == LET m == Cut(d, 10, Pl14(d, 8)) IN << Cut(d, 0, 3), Cut(d, 3, 5), << Pl14(d, 8) >>, m, m >>
NackLoad(t, five, text) == t \o five \o Put14(Len(text)) \o text
IsInvalidate(id, d) == Is(id, d, {126}, 4)
\* profile configuration 0x20..0x2F
IsProfInq(id, d) == Is(id, d, {32}, 0)
NumEn(d) == Pl14(d, 0)
DisAt(d) == 2 + 5 * NumEn(d)
IsProfRep(id, d) == Is(id, d, {33}, 4) /\ Len(d) >= 16 + 5 * NumEn(d)
                    /\ Len(d) >= 16 + 5 * (NumEn(d) + Pl14(d, DisAt(d)))
ProfRep(d) == LET e == NumEn(d) n == Pl14(d, DisAt(d)) IN
  << << Bool(e > 0), Bool(n > 0), e, n >>, Cut(d, 2, 5 * e), Cut(d, DisAt(d) + 2, 5 * n) >>
IsProfId(id, d)   == Is(id, d, 34..39, 5)
IsProfDest(id, d) == Is(id, d, 34..37, 7)
Prof(d) == Cut(d, 0, 5)
IsDetInq(id, d) == Is(id, d, {40}, 6)
IsDetRep(id, d) == Is(id, d, {41}, 8) /\ Len(d) >= 20 + Pl14(d, 6)
IsPsd(id, d)    == Is(id, d, {47}, 9) /\ Len(d) - 21 >= Pl28(d, 5)
\* property exchange 0x30..0x3F
IsPeCaps(id, d) == Is(id, d, {48, 49}, 1) /\ (Ver(d) >= 2 => Len(d) >= 15)
PeCaps(d) == << << Pl(d, 0), IF Ver(d) >= 2 THEN Pl(d, 1) ELSE 0, IF Ver(d) >= 2 THEN Pl(d, 2) ELSE 0 >> >>
HeadLen(d) == Pl14(d, 1)
Chunks(d)  == Pl14(d, 3 + HeadLen(d))
ThisOne(d) == Pl14(d, 5 + HeadLen(d))
ChunkLen(d) == Pl14(d, 7 + HeadLen(d))
IsPe(id, d, subs) ==
  /\ Is(id, d, subs, 9) /\ Len(d) >= 21 + HeadLen(d)
  /\ Len(d) >= 21 + HeadLen(d) + ChunkLen(d)
  /\ Chunks(d) > 0 => ThisOne(d) <= Chunks(d)         \* no chunk after the last
  /\ HeadLen(d) > 0 => ThisOne(d) <= 1                \* the header comes with the first
  /\ ChunkLen(d) > 0 => ThisOne(d) >= 1               \* data belongs to a chunk
Pe(d) == << << Pl(d, 0), HeadLen(d), Chunks(d), ThisOne(d), ChunkLen(d) >>,
            Cut(d, 3, HeadLen(d)), Cut(d, 9 + HeadLen(d), ChunkLen(d)) >>
PeLoad(req, header, n, t, chunk) ==
  << req >> \o Put14(Len(header)) \o header \o Put14(n) \o Put14(t) \o Put14(Len(chunk)) \o chunk
\* process inquiry 0x40..0x44
IsPiCaps(id, d) == Is(id, d, {65}, 1)
IsMmInq(id, d)  == Is(id, d, {66}, 5)
IsMmRep(id, d)  == Is(id, d, {67}, 4)

-----------------------------------------------------------------------------
(* What all views together say about a message *)
Offered(id, d) ==
  << IsIdReply(id, d), IsCi(id, d), IsDiscInq(id, d), IsDiscRep(id, d), IsEpInq(id, d), IsEpRep(id, d),
     IsAck(id, d), IsNak(id, d), IsInvalidate(id, d), IsProfInq(id, d), IsProfRep(id, d), IsProfId(id, d),
     IsProfDest(id, d), IsDetInq(id, d), IsDetRep(id, d), IsPsd(id, d), IsPeCaps(id, d),
     IsPe(id, d, 52..57 \cup {63}), IsPe(id, d, {52, 53}), IsPe(id, d, {54, 55}), IsPe(id, d, {56, 57}), IsPe(id, d, {63}),
     IsPiCaps(id, d), IsMmInq(id, d), IsMmRep(id, d) >>
Read(k, d) ==
  CASE k = 1 -> IdOf(d)
    [] k = 2 -> << << Ver(d), d[1], d[3], Get28(d, 5), Get28(d, 9) >> >>
    [] k = 3 -> Disc(d)
    [] k = 4 -> DiscR(d)
    [] k = 5 -> << << Pl(d, 0) >> >>
    [] k = 6 -> EpRep(d)
    [] k \in {7, 8} -> Nack(d)
    [] k = 9 -> << << Pl28(d, 0) >> >>
    [] k = 10 -> <<>>
    [] k = 11 -> ProfRep(d)
    [] k = 12 -> << Prof(d) >>
    [] k = 13 -> << Prof(d), << Pl14(d, 5), d[1], Pl14(d, 5) >> >>
    [] k = 14 -> << Prof(d), << Pl(d, 5) >> >>
    [] k = 15 -> << Prof(d), << Pl(d, 5), Pl14(d, 6) >>, Cut(d, 8, Pl14(d, 6)) >>
    [] k = 16 -> << Prof(d), << Pl28(d, 5) >>, Cut(d, 9, Pl28(d, 5)) >>
    [] k = 17 -> PeCaps(d)
    [] k \in 18..22 -> Pe(d)
    [] k = 23 -> << << Pl(d, 0) >> >>
    [] k = 24 -> << << Pl(d, 0), Pl(d, 1), Pl(d, 3), Pl(d, 4) >> >>
    [] k = 25 -> << << Pl(d, 0), Pl(d, 2), Pl(d, 3) >> >>

\* every view can be asked for in up to five ways (from the message, from a universal or MIDI-CI view of it), which agree
Views(id, d) ==
  LET o == Offered(id, d)
      ways == 3 + Bool(IsUniversal(id, d)) + Bool(IsCi(id, d))
  IN  << << Bool(IsUniversal(id, d)), UType(id, d), USubtype(id, d), UDevice(id, d), Bool(IsIdRequest(id, d)),
            Bool(IsIdReply(id, d)), Bool(IsIdReply(id, d)), Bool(IsCi(id, d)), Bool(IsCi(id, d)) >> >>
      \o (IF IsUniversal(id, d) THEN << << d[1], UType(id, d), USubtype(id, d), Len(d) >> >> ELSE <<>>)
      \o << [k \in DOMAIN o |-> IF o[k] THEN ways ELSE 0] >>
      \o Cat([k \in DOMAIN o |-> IF o[k] THEN Read(k, d) ELSE <<>>])

-----------------------------------------------------------------------------
(* Property exchange headers: JSON text.  Texts are bytes. *)
Quote(t) == <<34>> \o t \o <<34>>
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN << 48 + n >> ELSE Digits(n \div 10) \o << 48 + (n % 10) >>
Numeral(n) == IF n < 0 THEN <<45>> \o Digits(-n) ELSE Digits(n)
IsDigits(t) == t # <<>> /\ \A k \in DOMAIN t : t[k] \in 48..57
\* an integer in JSON: no empty text, lone sign or leading zero
IsInteger(t) ==
  LET u == IF t # <<>> /\ t[1] = 45 THEN Tail(t) ELSE t
  IN  IsDigits(u) /\ (Len(u) > 1 => u[1] # 48)
Literal(t) == IF IsInteger(t) THEN t ELSE Quote(t)
Member(key, lit) == Quote(key) \o <<58>> \o lit
RECURSIVE Options(_)
Options(o) == IF o = <<>> THEN <<>> ELSE <<44>> \o Member(o[1], Literal(o[2])) \o Options(SubSeq(o, 3, Len(o)))
Json(key, lit, o) == <<123>> \o Member(key, lit) \o Options(o) \o <<125>>
T_resource    == <<114, 101, 115, 111, 117, 114, 99, 101>>
T_command     == <<99, 111, 109, 109, 97, 110, 100>>
T_status      == <<115, 116, 97, 116, 117, 115>>
T_message     == <<109, 101, 115, 115, 97, 103, 101>>
T_subscribeId == <<115, 117, 98, 115, 99, 114, 105, 98, 101, 73, 100>>
=============================================================================
