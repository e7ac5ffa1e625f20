---------------------------- MODULE TraceCallbacks --------------------------
EXTENDS Callbacks, TraceBase
TheStart == ApiStart
TheStep(s, ev) == ApiStep(s, ev)
=============================================================================
