---------------------------- MODULE MC_Encoding ----------------------------
(* Packets to bytes and back: every packet over small data sets.              *)
EXTENDS ByteStreamApi, TLC, Json
CONSTANTS Big, Print0

D == IF Big THEN {0, 1, 63, 64, 127} ELSE {0, 5, 127}
Heads == {16 * t + g : t \in 1..3, g \in {0, 11}}
Short == {<<h, st, a, b>> : h \in {hh \in Heads : Hi(hh) < 3}, st \in IF Big THEN 0..255 ELSE 112..255, a \in D, b \in D}
Long == {<<h, st, 1, 2, 3, 4, 5, 6>> : h \in {48, 63}, st \in 0..255}
Others == {Pad(<<16 * t + 3, st, 1, 2>>, 4 * <<1, 1, 1, 2, 2, 4, 1, 1, 2, 2, 2, 3, 3, 4, 4, 4>>[t + 1]) : t \in {0} \cup 4..15, st \in {0, 16, 144, 240, 247, 248, 255}}
Sane(q) == /\ Lo(q[1]) = 0 /\ \A k \in 3..4 : q[k] < 128
           /\ \/ PType(q) = 1 /\ (IsCommon(q[2]) \/ DefinedRealtime(q[2]))
              \/ PType(q) = 2 /\ IsVoice(q[2])
           /\ \A k \in 3..4 : k - 2 > DataBytes(q[2]) => q[k] = 0
Split(n) == LET ps == Pieces([k \in 1..n |-> k], 6) IN
            [i \in DOMAIN ps |-> Pad(<<48, 16 * (IF Len(ps) = 1 THEN 0 ELSE IF i = 1 THEN 1 ELSE IF i = Len(ps) THEN 3 ELSE 2) + Len(ps[i])>> \o ps[i], 8)]
Calls == {<<"to", q>> : q \in Short \cup Long \cup Others}
         \cup {<<"from", <<st, a, b>> >> : st \in 0..255, a \in D, b \in D}
         \cup {<<"trip", q>> : q \in {x \in Short : Sane(x)}}
         \cup {<<"trip">> \o Split(n) \o <<q>> \o Split(m) : n \in 1..20, m \in {1, 7}, q \in { <<32, 144, 60, 1>>, <<16, 248, 0, 0>> }}
         \cup {<<"trip", q, r>> : q \in {x \in Short : Sane(x) /\ x[3] = 5}, r \in {x \in Short : Sane(x) /\ Lo(x[2]) = 2 /\ x[3] # 0}}

VARIABLES call, out
vars == <<call, out>>
Init == call = <<>> /\ out = <<>>
Next == call = <<>> /\ \E c \in Calls : call' = c /\ out' = ApiStep(ApiStart, [o |-> c[1], i |-> Tail(c), r |-> <<>>]).want
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
On(o) == call # <<>> /\ call[1] = o
\* what goes round comes back unchanged
\* (a SysEx of 6, 12, .. bytes comes back with an empty last packet, so SysEx packets are compared by what they carry)
Carried(qs) == FoldLeft(LAMBDA acc, q : IF ~IsSx7(q) THEN acc \o <<q>>
                                        ELSE acc \o (IF Hi(q[2]) \in {0, 1} THEN << <<240>> >> ELSE <<>>)
                                                 \o [k \in 1..Lo(q[2]) |-> <<q[2 + k]>>] \o (IF Hi(q[2]) \in {0, 3} THEN << <<247>> >> ELSE <<>>), <<>>, qs)
ThereAndBack == On("trip") => /\ Carried(out) = Carried(Tail(call))
                              /\ (\A k \in 2..Len(call) : ~IsSx7(call[k])) => out = Tail(call)
\* the bytes start with a status, hold data otherwise, and never exceed the packet
BytesSane == On("to") =>
  LET q == call[2]  e == out[3] IN
  /\ out[1] = <<Len(e)>> /\ Len(e) <= 8
  /\ (PType(q) \in {1, 2} /\ e # <<>>) => e[1] = q[2] /\ e[1] >= 128 /\ Len(e) <= 3
  /\ (PType(q) = 3 /\ e # <<>>) => /\ \A k \in 2..(Len(e) - 1) : e[k] = q[k + (IF e[1] = 240 THEN 1 ELSE 2)]
                                   /\ (e[1] = 240) = (Hi(q[2]) \in {0, 1}) /\ (e[Len(e)] = 247) = (Hi(q[2]) \in {0, 3})
  /\ PType(q) \notin 1..3 => e = <<>>
FromSane == On("from") => LET q == out[1] IN q = Zeros(4) \/ (q[2] = call[2][1] /\ Lo(q[1]) = 0 /\ SubSeq(q, 3, 4) = SubSeq(call[2], 2, 3) /\ StreamSize(q) > 0)
Behaviour == [ case |-> << call >>, expect |-> << out >> ]
Show == (Print0 /\ call # <<>>) => PrintT("BEHAVIOUR " \o ToJson(Behaviour))
=============================================================================
