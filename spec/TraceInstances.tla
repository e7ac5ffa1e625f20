--------------------------- MODULE TraceInstances ---------------------------
EXTENDS Instances, TraceBase
TheStart == NoObjects
TheStep(s, ev) == InstStep(s, ev)
=============================================================================
