------------------------------ MODULE MC_Names ------------------------------
(* The tables of names as such: numbers fit their fields, and the numbers the
   rest of the specification uses are the ones assigned to the names.  Every
   table is also a behaviour to replay: reading its names gives its numbers.  *)
EXTENDS CapabilityInquiry, Names, TLC, Json
CONSTANT Print0
VARIABLES t, k
vars == <<t, k>>
Init == t \in DOMAIN Tables /\ k = 1
Next == k < Len(Tables[t]) /\ k' = k + 1 /\ t' = t
Spec == Init /\ [][Next]_vars

N(table, name) == LET j == CHOOSE j \in DOMAIN Tables[table] : Tables[table][j][1] = name IN Tables[table][j][2]
Number == Tables[t][k][2]
\* no name is listed twice in one table
Unique == \A j \in DOMAIN Tables[t] : j # k => Tables[t][j][1] # Tables[t][k][1]
Fits == CASE t \in {"controlChange", "registeredParameter", "registeredPerNote", "ciCategory", "ciSubtype", "universalSubtype"} -> Number \in 0..127
          [] t = "systemStatusNames" -> Number \in 241..255
          [] t = "midi1Status" -> Number \in 128..224 /\ Number % 16 = 0
          [] t = "voiceStatus" -> Number \in 0..240 /\ Number % 16 = 0
          [] t \in {"packetType", "protocol", "extensions"} -> Number \in 0..15
          [] t \in {"packetFormat", "packetAddress", "functionBlock"} -> Number \in 0..3
          [] t = "manufacturer" -> \* one byte ids are not zero; three byte ids begin with one
               LET m == << Number \div 65536, (Number \div 256) % 256, Number % 256 >> IN
               IF m[1] # 0 THEN m[2] = 0 /\ m[3] = 0 /\ m[1] < 128 ELSE m[2] < 128 /\ m[3] < 128
          [] t = "universalType" -> Number = 0 \/ Number \div 256 \in {126, 127}
          [] OTHER -> TRUE
\* the rest of the specification speaks of the same numbers
Consistent ==
  /\ N("ciSubtype", "nak") = 127 /\ IsCi(NonRealtime, Ci(127, N("ciSubtype", "ack"), 2, 1, 2))
  /\ N("manufacturer", "universal_non_realtime") = NonRealtime[1] * 65536
  /\ N("manufacturer", "universal_realtime") = Realtime[1] * 65536
  /\ N("ciNumbers", "broadcast_muid") = Broadcast
  /\ N("universalType", "general_information") = UType(NonRealtime, IdRequest(0))
  /\ N("universalType", "capability_inquiry") = UType(NonRealtime, Ci(0, 112, 2, 1, 2))
  /\ N("controlChange", "mono_mode_on") = N("controlChange", "poly_mode_off")
  /\ N("controlChange", "poly_mode_on") = N("controlChange", "mono_mode_off")
  /\ HeaderTags[1] = T_resource /\ HeaderTags[9] = T_subscribeId
ASSUME Consistent
Behaviour == [ case |-> << << t >> >>, expect |-> << << NumbersOf(Tables[t]) >> >> ]
Show == (Print0 /\ k = Len(Tables[t])) => PrintT("BEHAVIOUR " \o ToJson(Behaviour))
=============================================================================
