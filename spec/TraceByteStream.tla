--------------------------- MODULE TraceByteStream --------------------------
EXTENDS ByteStreamApi, TraceBase
TheStart == ApiStart
TheStep(s, ev) == ApiStep(s, ev)
=============================================================================
