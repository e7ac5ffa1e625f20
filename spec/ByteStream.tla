----------------------------- MODULE ByteStream -----------------------------
(* The MIDI 1 byte stream: an incremental parser turning bytes into universal
   packets (and, optionally, whole system exclusive messages), and the encoder
   turning packets into bytes.

   An output item is  <<1>> \o packet bytes     a packet
                  or  <<2>> \o id (3) \o data   a whole SysEx message         *)
EXTENDS Bytes

-----------------------------------------------------------------------------
(* Vocabulary of the wire *)
IsData(b)      == b < 128
IsRealtime(b)  == b >= 248
DefinedRealtime(b) == b \in {248, 250, 251, 252, 254, 255}
IsCommon(b)    == b \in {241, 242, 243, 246}
IsVoice(b)     == b >= 128 /\ b < 240

\* number of data bytes that follow a status byte
DataBytes(s) ==
  CASE IsVoice(s) /\ Hi(s) \in {8, 9, 10, 11, 14} -> 2
    [] IsVoice(s) -> 1
    [] s = 242 -> 2
    [] s \in {241, 243} -> 1
    [] OTHER -> 0

SysPacket(g, s, d)   == << 16 + g, s >> \o Pad(d, 2)
VoicePacket(g, s, d) == << 32 + g, s >> \o Pad(d, 2)
\* format: 0 complete, 1 start, 2 continue, 3 end
Sx7Packet(g, f, d)   == << 48 + g, f * 16 + Len(d) >> \o Pad(d, 6)

Pkt(p) == <<1>> \o p
Msg(id, d) == <<2>> \o id \o d

-----------------------------------------------------------------------------
(* The parser.  kind: what is under way: nothing, a channel voice message (or
   a remembered running status), a system common message, or a SysEx.        *)
Parser(grp, whole, enabled) ==
  [ grp   |-> grp,      \* group given to new packets
    whole |-> whole,    \* deliver SysEx as whole messages instead of packets
    on    |-> enabled,  \* callbacks enabled
    kind  |-> "none", status |-> 0, g |-> 0, data |-> <<>>,
    first |-> TRUE,     \* SysEx packet mode: no packet of this SysEx completed yet
    keep  |-> TRUE ]    \* SysEx whole mode: began while callbacks were enabled

Idle(p) == [p EXCEPT !.kind = "none", !.status = 0, !.g = 0, !.data = <<>>, !.first = TRUE, !.keep = TRUE]
R(p, out) == [p |-> p, out |-> out]
Emit(p, item) == IF p.on THEN <<item>> ELSE <<>>

FeedRealtime(p, b) ==
  R(p, IF DefinedRealtime(b) THEN Emit(p, Pkt(SysPacket(p.grp, b, <<>>))) ELSE <<>>)

FeedStatus(p, b) ==
  CASE b = 240    -> R([Idle(p) EXCEPT !.kind = "sysex", !.g = p.grp, !.keep = p.on], <<>>)
    [] IsVoice(b) -> R([Idle(p) EXCEPT !.kind = "voice", !.status = b, !.g = p.grp], <<>>)
    [] b = 246    -> R(Idle(p), Emit(p, Pkt(SysPacket(p.grp, b, <<>>))))
    [] IsCommon(b) -> R([Idle(p) EXCEPT !.kind = "common", !.status = b, !.g = p.grp], <<>>)
    [] OTHER      -> R(Idle(p), <<>>)           \* F4, F5, stray F7

FeedData(p, b) ==
  IF p.kind = "none" THEN R(p, <<>>)
  ELSE LET d == Append(p.data, b) IN
       IF Len(d) < DataBytes(p.status) THEN R([p EXCEPT !.data = d], <<>>)
       ELSE IF p.kind = "voice"
            THEN R([p EXCEPT !.data = <<>>], Emit(p, Pkt(VoicePacket(p.g, p.status, d))))
            ELSE R(Idle(p), Emit(p, Pkt(SysPacket(p.g, p.status, d))))

FeedSysexData(p, b) ==
  IF p.whole
  THEN R(IF p.keep THEN [p EXCEPT !.data = Append(@, b)] ELSE p, <<>>)
  ELSE LET d == Append(p.data, b) IN
       IF Len(d) < 6 THEN R([p EXCEPT !.data = d], <<>>)
       ELSE R([p EXCEPT !.data = <<>>, !.first = FALSE, !.g = p.grp],
              Emit(p, Pkt(Sx7Packet(p.g, IF p.first THEN 1 ELSE 2, d))))

\* a message with a one byte (non-zero) or three byte (leading zero) id
WholeMessage(d) == Len(d) > 0 /\ (d[1] # 0 \/ Len(d) >= 3)
SplitMessage(d) ==
  IF d[1] # 0 THEN Msg(<<d[1], 0, 0>>, Slice(d, 2, Len(d)))
              ELSE Msg(<<0, d[2], d[3]>>, Slice(d, 4, Len(d)))

FeedSysexEnd(p) ==
  IF p.whole
  THEN R(Idle(p), IF p.keep /\ WholeMessage(p.data) THEN Emit(p, SplitMessage(p.data)) ELSE <<>>)
  ELSE IF p.first
       THEN R(Idle(p), IF p.data = <<>> THEN <<>> ELSE Emit(p, Pkt(Sx7Packet(p.g, 0, p.data))))
       ELSE R(Idle(p), Emit(p, Pkt(Sx7Packet(p.g, 3, p.data))))

Feed(p, b) ==
  CASE IsRealtime(b)                    -> FeedRealtime(p, b)
    [] p.kind = "sysex" /\ IsData(b)    -> FeedSysexData(p, b)
    [] p.kind = "sysex" /\ b = 247      -> FeedSysexEnd(p)
    [] IsData(b)                        -> FeedData(p, b)
    [] OTHER                            -> FeedStatus(p, b)   \* also aborts a SysEx under way

FeedEach(p, bs) ==
  FoldLeft(LAMBDA acc, b : LET r == Feed(acc.p, b) IN R(r.p, acc.out \o r.out), R(p, <<>>), bs)
\* the same, quickly: a run of data bytes inside a whole SysEx is appended at once (see BulkAgrees in MC_ByteStream)
FeedRun(p, bs) ==
  IF p.kind = "sysex" /\ p.whole /\ \A k \in DOMAIN bs : IsData(bs[k])
  THEN R(IF p.keep THEN [p EXCEPT !.data = @ \o bs] ELSE p, <<>>)
  ELSE FeedEach(p, bs)
FeedAll(p, bs) ==
  IF Len(bs) <= 256 THEN FeedRun(p, bs)
  ELSE FoldLeft(LAMBDA acc, run : LET r == FeedRun(acc.p, run) IN R(r.p, acc.out \o r.out), R(p, <<>>), Pieces(bs, 256))

SetGroup(p, g)  == [p EXCEPT !.grp = g]
SetEnabled(p, e) == [p EXCEPT !.on = e]
Reset(p)        == Idle(p)

-----------------------------------------------------------------------------
(* Packets to bytes.  q is a packet as bytes. *)
PType(q) == Hi(q[1])
IsSx7(q) == PType(q) = 3 /\ q[2] <= 63 /\ Lo(q[2]) <= 6
StreamSize(q) ==      \* bytes of payload the byte stream carries for this packet
  CASE PType(q) = 1 /\ (IsCommon(q[2]) \/ DefinedRealtime(q[2])) -> 1 + DataBytes(q[2])
    [] PType(q) = 2 /\ IsVoice(q[2]) -> 1 + DataBytes(q[2])
    [] IsSx7(q) -> Lo(q[2])
    [] OTHER -> 0
Encode(q) ==
  CASE PType(q) \in {1, 2} -> SubSeq(q, 2, 1 + StreamSize(q))
    [] IsSx7(q) -> (IF Hi(q[2]) \in {0, 1} THEN <<240>> ELSE <<>>)
                   \o SubSeq(q, 3, 2 + Lo(q[2]))
                   \o (IF Hi(q[2]) \in {0, 3} THEN <<247>> ELSE <<>>)
    [] OTHER -> <<>>
\* one packet (group 0) from a status byte and two data bytes; the empty packet if there is none
FromBytes(s, d1, d2) ==
  CASE IsVoice(s) -> <<32, s, d1, d2>>
    [] IsCommon(s) \/ DefinedRealtime(s) -> <<16, s, d1, d2>>
    [] OTHER -> <<0, 0, 0, 0>>
=============================================================================
