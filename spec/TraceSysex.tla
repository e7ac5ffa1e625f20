----------------------------- MODULE TraceSysex -----------------------------
EXTENDS SysexApi, TraceBase
TheStart == ApiStart
TheStep(s, ev) == ApiStep(s, ev)
=============================================================================
