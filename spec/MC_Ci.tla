------------------------------- MODULE MC_Ci -------------------------------
(* Every MIDI-CI message over small argument sets: who recognises it and what
   they read from it; and every small damage to such messages.                *)
EXTENDS CiApi, TLC, Json
CONSTANTS Family, Big, Print0

Hs == { <<1, 268435455, 127>>, <<129, 2097152, 0>>, <<268435454, 16384, 9>> }
Hs1 == IF Big THEN Hs ELSE { <<129, 2097152, 9>> }
Sevens == IF Big THEN {0, 1, 2, 64, 127} ELSE {0, 65, 127}
N14 == {0, 1, 127, 128, 16383}
N28 == {0, 127, 128, 16384, 2097152, 268435455}
Ids == { <<65, 0, 0>>, <<0, 33, 9>>, <<0, 0, 0>> }
Up(n) == [k \in 1..n |-> (k * 11) % 128]
Five == <<126, 1, 2, 3, 4>>
Lens == IF Big THEN {0, 1, 2, 3, 5, 127, 128, 129, 300} ELSE {0, 1, 3, 128}
Text1 == <<82, 49>>

ManagementCalls ==
  {<<o, h, id, <<fm, md, rv>>, <<c, mx, a, b>> >> : o \in {"d.inq", "d.inq0", "d.inq1", "d.rep", "d.rep0", "d.rep1"}, h \in Hs1, id \in Ids, fm \in {0, 128}, md \in {1, 16383}, rv \in N28,
                                                      c \in {0, 28, 127}, mx \in {0, 512, 268435455}, a \in {0, 31}, b \in {5}}
  \cup {<<"e.inq", h, <<x>> >> : h \in Hs, x \in Sevens} \cup {<<"e.rep", h, <<x>>, Up(n)>> : h \in Hs, x \in Sevens, n \in Lens}
  \cup {<<o, h, <<x, 7, 8>>, Five, Up(n)>> : o \in {"n.ack", "n.nak"}, h \in Hs, x \in Sevens, n \in Lens}
  \cup {<<"n.nak1", h>> : h \in Hs} \cup {<<"n.inv", h, <<m>> >> : h \in Hs, m \in N28}
ProfileCalls ==
  {<<"p.rep", h, Up(5 * n), Up(5 * m), <<w>> >> : h \in Hs1, n \in 0..4, m \in 0..4, w \in 0..1}
  \cup {<<o, h, Five, <<v>> >> : o \in {"p.on", "p.off", "p.ena", "p.dis"}, h \in Hs, v \in N14}
  \cup {<<o, h, Five>> : o \in {"p.add", "p.add0", "p.rem", "p.rem0"}, h \in Hs} \cup {<<o, h>> : o \in {"p.inq", "p.inq0"}, h \in Hs}
  \cup {<<o, h, Five, <<x>> >> : o \in {"p.dinq", "p.dinq0"}, h \in Hs, x \in Sevens}
  \cup {<<"p.drep", h, Five, <<x>>, Up(n)>> : h \in Hs, x \in Sevens, n \in Lens}
  \cup {<<"p.psd", h, Five, Up(n), <<w>> >> : h \in Hs, n \in Lens, w \in 0..1}
  \cup {<<o, h>> : o \in {"q.caps", "q.end"}, h \in Hs} \cup {<<"q.capr", h, <<x>> >> : h \in Hs, x \in Sevens}
  \cup {<<"q.inq", h, <<a, b, c, d>> >> : h \in Hs1, a \in Sevens, b \in Sevens, c \in Sevens, d \in Sevens}
  \cup {<<"q.rep", h, <<a, b, c>> >> : h \in Hs1, a \in Sevens, b \in Sevens, c \in Sevens}
PropertyCalls ==
  {<<o, h, <<x>> >> : o \in {"x.caps", "x.caps0", "x.capr", "x.capr0"}, h \in Hs, x \in Sevens}
  \cup {<<"x.data", h, <<rq>>, <<sub, 0, nt[1], nt[2]>>, Up(hl), Up(cl)>> : h \in Hs1, rq \in {0, 127}, sub \in {52, 53, 54, 55, 56, 57, 63}, hl \in Lens, cl \in Lens,
         nt \in { <<0, 1>>, <<1, 1>>, <<2, 1>>, <<129, 1>>, <<16383, 1>> }}
  \cup {<<"x.data", h, <<rq>>, <<sub, 0, nt[1], nt[2]>>, <<>>, Up(cl)>> : h \in Hs1, rq \in {5}, sub \in {53, 54, 56}, cl \in Lens,
         nt \in { <<2, 2>>, <<0, 9>>, <<300, 128>>, <<300, 129>>, <<16383, 16383>> }}
  \cup {<<o, h, <<rq, left>>, <<x>> >> : o \in {"x.setr", "x.subr", "x.not"}, h \in Hs, rq \in {3}, left \in 0..2, x \in {0, 200, -1, 404}}
  \cup {<<"x.get", h, <<rq, left>>, Text1>> : h \in Hs, rq \in {3}, left \in 0..2}
UniversalCalls == {<<"u.req", <<x>>, <<w>> >> : x \in Sevens, w \in 0..1} \cup {<<"u.rep", id, <<fm, md, rv>>, <<x>>, <<w>> >> : w \in 0..1, id \in Ids \ {<<0, 0, 0>>}, fm \in N14, md \in N14, rv \in N28, x \in {0, 127}}

\* messages to damage, as (id, data); payloads chosen so that every length and count field matters
Bases == { Ci2(9, 112, 5, Broadcast, PutIdentity([id |-> <<65, 0, 0>>, family |-> 1, model |-> 2, revision |-> 3]) \o <<28>> \o Put28(512) \o <<0>>),
           Ci2(9, 113, 5, 6, PutIdentity([id |-> <<65, 0, 0>>, family |-> 1, model |-> 2, revision |-> 3]) \o <<28>> \o Put28(512) \o <<0, 127>>),
           Ci(9, 112, 1, 5, Broadcast) \o Up(16), Ci(9, 113, 1, 5, 6) \o Up(16),
           Ci2(127, 114, 5, 6, <<0>>), Ci2(127, 115, 5, 6, <<0>> \o Put14(2) \o <<7, 8>>),
           Ci2(127, 125, 5, 6, NackLoad(<<1, 2, 3>>, Five, <<7, 8>>)), Ci2(127, 127, 5, 6, NackLoad(<<1, 2, 3>>, Five, <<7>>)), Ci(127, 127, 1, 5, 6),
           Ci2(127, 126, 5, Broadcast, Put28(77)), Ci2(0, 32, 5, 6, <<>>),
           Ci2(0, 33, 5, 6, Put14(1) \o Five \o Put14(1) \o Five), Ci2(0, 33, 5, 6, Put14(0) \o Put14(1) \o Five), Ci2(0, 33, 5, 6, Put14(2) \o Five \o Five \o Put14(0)),
           Ci2(0, 34, 5, 6, Five \o Put14(3)), Ci2(0, 37, 5, 6, Five \o Put14(0)), Ci2(0, 38, 5, 6, Five), Ci2(0, 39, 5, 6, Five),
           Ci2(0, 40, 5, 6, Five \o <<1>>), Ci2(0, 41, 5, 6, Five \o <<1>> \o Put14(2) \o <<4, 5>>), Ci2(0, 47, 5, 6, Five \o Put28(2) \o <<4, 5>>),
           Ci2(127, 48, 5, 6, <<4, 0, 0>>), Ci(127, 49, 1, 5, 6) \o <<4>>,
           Ci2(127, 52, 5, 6, PeLoad(1, <<1, 2>>, 1, 1, <<>>)), Ci2(127, 53, 5, 6, PeLoad(1, <<1, 2>>, 2, 1, <<3, 4, 5>>)), Ci2(127, 53, 5, 6, PeLoad(1, <<>>, 2, 2, <<3>>)),
           Ci2(127, 54, 5, 6, PeLoad(1, <<1>>, 0, 1, <<3>>)), Ci2(127, 56, 5, 6, PeLoad(1, <<1>>, 0, 0, <<>>)), Ci2(127, 63, 5, 6, PeLoad(1, <<1, 2>>, 1, 1, <<>>)),
           Ci2(127, 64, 5, 6, <<>>), Ci2(127, 65, 5, 6, <<1>>), Ci2(127, 66, 5, 6, <<1, 2, 0, 3, 4>>), Ci2(127, 67, 5, Broadcast, <<1, 0, 2, 3>>), Ci2(127, 68, 5, Broadcast, <<>>),
           IdRequest(9), IdReply(9, [id |-> <<65, 0, 0>>, family |-> 1, model |-> 2, revision |-> 3]), IdReply(9, [id |-> <<0, 33, 9>>, family |-> 1, model |-> 2, revision |-> 3]),
           <<9, 9, 1>>, <<9, 13>>, <<13, 13, 112, 2>> }
Set(d, k, v) == [d EXCEPT ![k] = v]
Damaged(d) == {d} \cup {SubSeq(d, 1, n) : n \in 0..Len(d)} \cup {d \o x : x \in {<<0>>, <<1, 2>>, Five}}
              \cup {Set(d, k, v) : k \in DOMAIN d, v \in IF Big THEN {0, 1, 2, 3, 13, 64, 127} ELSE {0, 1, 2, 127}}
              \cup {Set(SubSeq(d, 1, Len(d) - 1), k, v) : k \in 1..(Len(d) - 1), v \in {0, 1}}
              \cup (IF Big THEN {Set(Set(d, k, v), k + 1, w) : k \in 1..(Len(d) - 1), v \in {0, 3, 127}, w \in {0, 1, 127}} ELSE {})
Views0 == UNION {{<<"view", id, x>> : id \in {NonRealtime}, x \in Damaged(d)} : d \in Bases}
          \cup {<<"view", id, d>> : id \in {Realtime, <<125, 0, 0>>, <<0, 126, 0>>, <<126, 0, 1>>, <<0, 0, 0>>}, d \in Bases}

Calls == CASE Family = "management" -> ManagementCalls [] Family = "profiles" -> ProfileCalls [] Family = "properties" -> PropertyCalls
           [] Family = "universal" -> UniversalCalls [] Family = "untrusted" -> Views0

VARIABLES call, out
vars == <<call, out>>
Init == call = <<>> /\ out = <<>>
Next == call = <<>> /\ \E c \in Calls : call' = c /\ out' = ApiStep(ApiStart, [o |-> c[1], i |-> Tail(c), r |-> <<>>]).want
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Op == call[1]
Made == call # <<>> /\ Family # "untrusted"
MadeCi == Made /\ Family # "universal"
d0 == out[2]
Offers == {k \in 1..25 : Offered(out[1], d0)[k]}
H == call[2]
\* C23 .. C25: a made message has a sound header and is recognised by its own views only
Header == MadeCi =>
  /\ out[1] = NonRealtime /\ \A k \in DOMAIN d0 : d0[k] \in 0..127
  /\ IsCi(out[1], d0) /\ Get28(d0, 5) = H[1]
  /\ Get28(d0, 9) \in {H[2], Broadcast} /\ d0[1] \in {H[3], 127}
Recognised == MadeCi =>
  Offers \ {2} = (CASE Op \in {"d.inq", "d.inq0", "d.inq1"} -> {3} [] Op \in {"d.rep", "d.rep0", "d.rep1"} -> {4} [] Op = "e.inq" -> {5} [] Op = "e.rep" -> {6}
                    [] Op = "n.ack" -> {7} [] Op = "n.nak" -> {8} [] Op = "n.nak1" -> {} [] Op = "n.inv" -> {9}
                    [] Op \in {"p.inq", "p.inq0"} -> {10} [] Op = "p.rep" -> {11} [] Op \in {"p.add", "p.add0", "p.rem", "p.rem0"} -> {12}
                    [] Op \in {"p.on", "p.off", "p.ena", "p.dis"} -> {12, 13} [] Op \in {"p.dinq", "p.dinq0"} -> {14} [] Op = "p.drep" -> {15} [] Op = "p.psd" -> {16}
                    [] Op \in {"x.caps", "x.caps0", "x.capr", "x.capr0"} -> {17} [] Op = "x.get" -> {18, 19} [] Op = "x.setr" -> {18, 20} [] Op = "x.subr" -> {18, 21}
                    [] Op = "x.not" -> {18, 22}
                    [] Op = "x.data" -> {18, CASE call[4][1] \in {52, 53} -> 19 [] call[4][1] \in {54, 55} -> 20 [] call[4][1] \in {56, 57} -> 21 [] OTHER -> 22}
                    [] Op \in {"q.caps", "q.end"} -> {} [] Op = "q.capr" -> {23} [] Op = "q.inq" -> {24} [] Op = "q.rep" -> {25})
ReadsBack == MadeCi =>
  CASE Op = "d.inq" -> Disc(d0) = << call[3], call[4], SubSeq(call[5], 1, 3) >>
    [] Op = "d.inq1" -> Disc(d0) = << call[3], call[4], SubSeq(call[5], 1, 2) \o <<0>> >>
    [] Op = "d.rep" -> DiscR(d0) = << call[3], call[4], SubSeq(call[5], 1, 3), <<call[5][4]>> >>
    [] Op = "e.rep" -> EpRep(d0) = << <<call[3][1], Len(call[4])>>, call[4] >>
    [] Op \in {"n.ack", "n.nak"} -> Nack(d0) = << call[3], call[4], <<Len(call[5])>>, call[5], call[5] >>
    [] Op = "n.inv" -> Pl28(d0, 0) = call[3][1]
    [] Op = "p.rep" -> ProfRep(d0) = << <<Bool(call[3] # <<>>), Bool(call[4] # <<>>), Len(call[3]) \div 5, Len(call[4]) \div 5>>, call[3], call[4] >>
    [] Op \in {"p.on", "p.ena", "p.dis"} -> Read(13, d0) = << Five, <<call[4][1], d0[1], call[4][1]>> >>
    [] Op = "p.drep" -> Read(15, d0) = << Five, <<call[4][1], Len(call[5])>>, call[5] >>
    [] Op = "p.psd" -> Read(16, d0) = << Five, <<Len(call[4])>>, call[4] >>
    [] Op = "q.inq" -> Read(24, d0) = << call[3] >>
    [] Op = "q.rep" -> Read(25, d0) = << call[3] >>
    [] Op = "x.data" -> Pe(d0) = << << call[3][1], Len(call[5]), call[4][3], call[4][4], Len(call[6]) >>, call[5], call[6] >>
    [] OTHER -> TRUE
UniversalLaw == (Made /\ Family = "universal") =>
  CASE Op = "u.req" -> IsIdRequest(out[1], d0) /\ Offers = {}
    [] Op = "u.rep" -> Offers = {1} /\ IdOf(d0) = << call[2], call[3] >> /\ ~IsIdRequest(out[1], d0)
\* C26: what is offered can be read (reading outside the data stops TLC), one kind at a time, and only from 7E messages
Kinds == << {3}, {4}, {5}, {6}, {7}, {8}, {9}, {10}, {11}, {12, 13}, {14}, {15}, {16}, {17}, {18, 19}, {18, 20}, {18, 21}, {18, 22}, {23}, {24}, {25}, {1}, {} >>
Sound == (call # <<>> /\ Family = "untrusted") =>
  LET id == call[2]  d == call[3]  o == {k \in 1..25 : Offered(id, d)[k]} IN
  /\ \E k \in DOMAIN Kinds : o \ {2} \subseteq Kinds[k]
  /\ (o \ {1} # {}) => 2 \in o
  /\ o # {} => id = NonRealtime
  /\ \A k \in o : \A j \in DOMAIN Read(k, d) : Read(k, d)[j] \in Seq(0..268435455)

-----------------------------------------------------------------------------
Behaviour == [ case |-> << call >>, expect |-> << out >> ]
Show == (Print0 /\ call # <<>>) => PrintT("BEHAVIOUR " \o ToJson(Behaviour))
=============================================================================
