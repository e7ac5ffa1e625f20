------------------------------ MODULE MC_Store ------------------------------
(* Histories of a collector or parser under senders that behave and senders
   that do not: endless messages, limits changed in between.                 *)
EXTENDS Storage, TLC, Json
CONSTANTS MaxLen, Kind, Feeds, Limits, Print0
VARIABLES c, hist, lims
vars == <<c, hist, lims>>
Init == c = [NoHolder EXCEPT !.kind = Kind] /\ hist = <<>> /\ lims = {0}
Pay == IF Kind = "c8" THEN 13 ELSE 6
Do(c1, ev) == c' = [c1 EXCEPT !.peak = 0, !.out = 0] /\ hist' = Append(hist, ev)
Collect ==
  \/ \E f \in 0..3, n \in {3, Pay} : Do(CollectorFeed(c, f, n), << "c.feed", <<f, n, 1>> >>) /\ UNCHANGED lims
  \/ \E m \in Feeds : Do(CollectorFeed(c, 2, Pay * m), << "c.feed", <<2, Pay, m>> >>) /\ UNCHANGED lims
  \/ \E l \in Limits : Do(Limit(c, l), << "c.lim", <<l>> >>) /\ lims' = lims \cup {l}
  \/ Do(Cleared(c), << "c.reset" >>) /\ UNCHANGED lims
Parse ==
  \/ \E b \in {240, 247, 248, 192} : Do(ParserByte(c, b, 1, TRUE, TRUE), << "p.feed", <<b, 1, 0>> >>) /\ UNCHANGED lims
  \/ \E m \in Feeds : Do(ParserByte(c, 65, m, TRUE, TRUE), << "p.feed", <<65, m, 1>> >>) /\ UNCHANGED lims
  \/ Do(Cleared(c), << "p.reset" >>) /\ UNCHANGED lims
Next == Len(hist) < MaxLen /\ (IF Kind = "p" THEN Parse ELSE Collect)
Spec == Init /\ [][Next]_vars

Largest == CHOOSE l \in lims : \A k \in lims : k <= l
HoldsWithin == c.h <= c.ub
IdleSmall == (~c.on /\ c.kind # "p" /\ c.lim = 0 /\ lims = {0}) => c.ub <= Keep + Slack
\* under a limit from the start nothing a sender does takes more than the limit
FromTheStart == (hist # <<>> /\ hist[1][1] = "c.lim" /\ \A k \in DOMAIN hist : (hist[k][1] = "c.lim" => hist[k][2][1] > 0))
Bounded == FromTheStart => c.ub <= Largest + Slack
LimitKept == FromTheStart => c.h <= Largest
Case == << <<"env">>, IF Kind = "p" THEN <<"p.new", <<1, 1>> >> ELSE <<"c.new", <<IF Kind = "c7" THEN 7 ELSE 8>> >> >>
        \o hist \o << << IF Kind = "p" THEN "p.drop" ELSE "c.drop" >> >>
Show == (Print0 /\ Len(hist) = MaxLen) => PrintT("BEHAVIOUR " \o ToJson([case |-> Case]))
=============================================================================
