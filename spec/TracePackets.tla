---------------------------- MODULE TracePackets ----------------------------
EXTENDS PacketApi, TraceBase
TheStart == ApiStart
TheStep(s, ev) == ApiStep(s, ev)
=============================================================================
