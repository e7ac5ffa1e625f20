----------------------------- MODULE TraceNames -----------------------------
EXTENDS Names, TraceBase
TheStart == <<>>
Texts == [ headerTags |-> HeaderTags, resourceNames |-> ResourceNames ]
Assigned(o) == IF o \in DOMAIN Texts THEN Texts[o] ELSE << NumbersOf(Tables[o]) >>
TheStep(s, ev) == [st |-> s, ok |-> ev.r = Assigned(ev.o), want |-> Assigned(ev.o)]
=============================================================================
