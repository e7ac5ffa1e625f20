----------------------------- MODULE MC_Values -----------------------------
(* Resolution changes on their own: every value of every pair of widths.     *)
EXTENDS Values, TLC, Json
CONSTANTS MaxX, MaxY, Print0
VARIABLES x, y, v
vars == <<x, y, v>>
Init == x \in 2..MaxX /\ y \in (x + 1)..MaxY /\ v = 0
Next == v + 1 < 2^x /\ v' = v + 1 /\ UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_vars
Up(n) == Upsample(BitsOf(n, x), x, y)
Ones(n) == [k \in 1..n |-> 1]
FixedPoints == /\ (v = 0 => Up(v) = Zeros(y))
               /\ (v = 2^(x - 1) => Up(v) = <<1>> \o Zeros(y - 1))
               /\ (v = 2^x - 1 => Up(v) = Ones(y))
RECURSIVE BitsLess(_, _)
BitsLess(a, b) == IF a = <<>> THEN FALSE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE BitsLess(Tail(a), Tail(b))
StrictlyIncreasing == v > 0 => BitsLess(Up(v - 1), Up(v))
LowerHalfShift == v <= 2^(x - 1) => Up(v) = BitsOf(v, x) \o Zeros(y - x)
RoundTrip == FromBits(SubSeq(Up(v), 1, x)) = v
Behaviour == [ case |-> << << "up", <<x, y>>, Be32(v) >> >>, expect |-> << << Word(Up(v)) >> >> ]
Show == Print0 => PrintT("BEHAVIOUR " \o ToJson(Behaviour))
=============================================================================
