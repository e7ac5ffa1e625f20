------------------------------- MODULE Sysex -------------------------------
(* SysEx messages: an id of three bytes (one byte ids have zeros below) and
   data; their segmentation into packets, and the collectors reassembling
   packets into messages.                                                    *)
EXTENDS Bytes

ShortId(id) == id[2] = 0 /\ id[3] = 0
\* what travels: 7 bit SysEx has one or three id bytes, 8 bit SysEx always two
Body7(id, d) == (IF ShortId(id) THEN <<id[1]>> ELSE id) \o d
Body8(id, d) == (IF ShortId(id) THEN <<0, id[1]>> ELSE <<128 + id[2], id[3]>>) \o d

Format(k, n) == CASE n = 1 -> 0 [] k = 1 -> 1 [] k = n -> 3 [] OTHER -> 2
Packet7(g, f, d)      == << 48 + g, f * 16 + Len(d) >> \o Pad(d, 6)
Packet8(g, f, sid, d) == << 80 + g, f * 16 + Len(d) + 1, sid >> \o Pad(d, 13)

Segments7(g, id, d) ==
  LET ps == Pieces(Body7(id, d), 6) IN [k \in DOMAIN ps |-> Packet7(g, Format(k, Len(ps)), ps[k])]
Segments8(g, sid, id, d) ==
  LET ps == Pieces(Body8(id, d), 13) IN [k \in DOMAIN ps |-> Packet8(g, Format(k, Len(ps)), sid, ps[k])]

-----------------------------------------------------------------------------
(* Collectors.  A delivery is id (3 bytes) \o data, for 8 bit SysEx preceded by
   the stream id.  lim = -1: no limit.                                       *)
Is7(q) == Hi(q[1]) = 3 /\ q[2] <= 63 /\ Lo(q[2]) <= 6
Is8(q) == Hi(q[1]) = 5 /\ q[2] <= 63 /\ Lo(q[2]) \in 1..14
Fmt(q) == Hi(q[2])
Load7(q) == SubSeq(q, 3, 2 + Lo(q[2]))
Load8(q) == SubSeq(q, 4, 2 + Lo(q[2]))

IdBytes7(b) == IF Len(b) > 0 /\ b[1] # 0 THEN 1 ELSE 3
Message7(b) ==    \* id and data of a reassembled body
  IF Len(b) > 0 /\ b[1] # 0 THEN <<b[1], 0, 0>> \o Slice(b, 2, Len(b))
  ELSE Pad(Slice(b, 1, 3), 3) \o Slice(b, 4, Len(b))
Message8(b) ==
  (CASE Len(b) = 0 -> <<0, 0, 0>>
     [] b[1] >= 128 -> <<0, b[1] % 128, IF Len(b) > 1 THEN b[2] % 128 ELSE 0>>
     [] b[1] = 0 -> <<IF Len(b) > 1 THEN b[2] % 128 ELSE 0, 0, 0>>
     [] OTHER -> <<0, 0, 0>>)                      \* invalid id
  \o Slice(b, 3, Len(b))

Collector == [open |-> FALSE, body |-> <<>>, sid |-> 0, lim |-> -1, cb |-> 1]
Shut(c) == [c EXCEPT !.open = FALSE, !.body = <<>>, !.sid = 0]
Done(c, out) == [c |-> c, out |-> out]
Within(c, idlen, b) == c.lim < 0 \/ Len(b) - idlen <= c.lim

Feed7(c, q) ==
  IF ~Is7(q) THEN Done(c, <<>>)
  ELSE IF Fmt(q) \in {2, 3} /\ ~c.open THEN Done(c, <<>>)
  ELSE LET b == (IF Fmt(q) \in {0, 1} THEN <<>> ELSE c.body) \o Load7(q) IN
       IF ~Within(c, IdBytes7(b), b) THEN Done(Shut(c), <<>>)
       ELSE IF Fmt(q) \in {1, 2} THEN Done([c EXCEPT !.open = TRUE, !.body = b], <<>>)
       ELSE Done(Shut(c), IF c.cb = 0 THEN <<>> ELSE << <<c.cb>> \o Message7(b) >>)

Feed8(c, q) ==
  IF ~Is8(q) THEN Done(c, <<>>)
  ELSE IF Fmt(q) \in {2, 3} /\ (~c.open \/ c.sid # q[3]) THEN Done(c, <<>>)
  ELSE LET b == (IF Fmt(q) \in {0, 1} THEN <<>> ELSE c.body) \o Load8(q) IN
       IF ~Within(c, 2, b) THEN Done(Shut(c), <<>>)
       ELSE IF Fmt(q) \in {1, 2} THEN Done([c EXCEPT !.open = TRUE, !.body = b, !.sid = q[3]], <<>>)
       ELSE Done(Shut(c), IF c.cb = 0 THEN <<>> ELSE << <<c.cb, q[3]>> \o Message8(b) >>)

Feeds(F(_, _), c, qs) ==
  FoldLeft(LAMBDA acc, q : LET r == F(acc.c, q) IN Done(r.c, acc.out \o r.out), Done(c, <<>>), qs)
SetLimit(c, n) == [c EXCEPT !.lim = IF n = 0 THEN -1 ELSE n]

-----------------------------------------------------------------------------
(* Integer codecs: least significant seven bits first *)
Put14(v) == << v % 128, (v \div 128) % 128 >>
Put28(v) == << v % 128, (v \div 128) % 128, (v \div 16384) % 128, (v \div 2097152) % 128 >>
\* v as 4 bytes (big endian): 32 bits in five 7 bit bytes
Low28(w) == (w[1] % 16) * 16777216 + w[2] * 65536 + w[3] * 256 + w[4]
Put32(w) == Put28(Low28(w)) \o << w[1] \div 16 >>
Get14(s, k) == s[k] + 128 * s[k + 1]
Get28(s, k) == s[k] + 128 * s[k + 1] + 16384 * s[k + 2] + 2097152 * s[k + 3]
Get32(s, k) == LET v == Get28(s, k) IN << (s[k + 4] % 16) * 16 + v \div 16777216 >> \o Tail(Be32(v))
\* identity: id (3 bytes), family, model (14 bit), revision (28 bit)
PutIdentity(x) == x.id \o Put14(x.family) \o Put14(x.model) \o Put28(x.revision)
GetIdentity(s, k) == [id |-> SubSeq(s, k, k + 2), family |-> Get14(s, k + 3), model |-> Get14(s, k + 5), revision |-> Get28(s, k + 7)]
TotalSize(id, d) == Len(d) + (IF id = <<0, 0, 0>> THEN 0 ELSE IF id[1] # 0 THEN 1 ELSE 3)
AllData(d) == \A k \in DOMAIN d : d[k] < 128
=============================================================================
