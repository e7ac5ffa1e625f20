------------------------------- MODULE TraceCi ------------------------------
EXTENDS CiApi, TraceBase
TheStart == ApiStart
TheStep(s, ev) == ApiStep(s, ev)
=============================================================================
