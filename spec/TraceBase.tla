----------------------------- MODULE TraceBase -----------------------------
(* Validation of recorded executions.  The log is one case per line; a case is
   a sequence of events [o |-> operation, i |-> arguments, r |-> results].
   The extending module gives Start (the specification's state before the
   first event) and Step(st, ev): the state after ev, whether the recorded
   results are allowed, and what the specification would have allowed.
   A case may use two independent systems: "swap" turns to the other one.    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS Start, Step(_, _)

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES case, pos, st, aside, ok, want
vars == <<case, pos, st, aside, ok, want>>

TraceInit == /\ case \in 1..Len(Log)
             /\ pos = 0 /\ st = Start /\ aside = Start /\ ok = TRUE /\ want = <<>>
TraceNext == /\ ok
             /\ pos < Len(Log[case])
             /\ IF Log[case][pos + 1].o = "swap"
                THEN st' = aside /\ aside' = st /\ ok' = TRUE /\ want' = <<>>
                ELSE LET res == Step(st, Log[case][pos + 1])
                     IN  /\ st' = res.st /\ ok' = res.ok /\ aside' = aside
                         /\ want' = IF res.ok THEN <<>> ELSE res.want
             /\ pos' = pos + 1 /\ case' = case
Spec == TraceInit /\ [][TraceNext]_vars
Conforms == ok
=============================================================================
