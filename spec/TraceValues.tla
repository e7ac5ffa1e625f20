----------------------------- MODULE TraceValues ----------------------------
EXTENDS ValueApi, TraceBase
TheStart == ApiStart
TheStep(s, ev) == ApiStep(s, ev)
=============================================================================
