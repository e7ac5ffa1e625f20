------------------------------ MODULE MC_Fixed ------------------------------
(* Fixed point arithmetic and conversions from reals over boundary values:
   laws of saturating arithmetic, and every call printed for replay.          *)
EXTENDS ValueApi, TLC, Json
CONSTANTS Family, Big, Print0

Ends == { <<0, 0, 0, 0>>, <<0, 0, 0, 1>>, <<0, 0, 0, 2>>, <<0, 0, 255, 255>>, <<0, 1, 0, 0>>, <<1, 255, 255, 255>>, <<2, 0, 0, 0>>, <<4, 0, 0, 0>>,
          <<63, 255, 255, 255>>, <<64, 0, 0, 0>>, <<127, 255, 255, 254>>, <<127, 255, 255, 255>>, <<128, 0, 0, 0>>, <<128, 0, 0, 1>>, <<128, 0, 255, 255>>,
          <<192, 0, 0, 0>>, <<254, 0, 0, 0>>, <<255, 255, 0, 0>>, <<255, 255, 255, 254>>, <<255, 255, 255, 255>> }
More == {[k \in 1..4 |-> IF k < j THEN 0 ELSE IF k = j THEN 2^b ELSE z] : j \in 1..4, b \in 0..7, z \in {0, 255}}
Ws == IF Big THEN Ends \cup More ELSE Ends
\* reals n / 2^sh as 7 bytes: powers of two and their neighbours
Seven(n) == Zeros(3) \o Be32(n)
Ns == {0, 1, 2, 3, 255, 256, 257, 511, 512, 513, 32767, 32768, 32769, 65535, 65536, 65537, 16777215, 16777216, 16777217, 1073741823, 1073741824, 2147483647}
Shs == IF Big THEN 0..32 ELSE {0, 1, 8, 9, 10, 16, 24, 25, 26, 30, 32}
Calls == IF Family = "arith" THEN {<<o, a, b>> : o \in {"p+i", "i+i", "c+i", "b*s"}, a \in Ws, b \in Ws}
         ELSE {<<o, <<neg, sh>>, Seven(n)>> : o \in {"r79", "r725", "rinc"}, neg \in 0..1, sh \in Shs, n \in Ns}

VARIABLES call, out
vars == <<call, out>>
Init == call = <<>> /\ out = <<>>
Next == call = <<>> /\ \E c \in Calls : call' = c /\ out' = ApiStep(ApiStart, [o |-> c[1], i |-> Tail(c), r |-> <<>>]).want
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Op == call[1]
R == out[1]
On(f) == call # <<>> /\ Family = f
\* the exact sum, or the bound it exceeds
Saturated(x, exact, lo, hi) == IF Less(exact, lo) THEN x = lo ELSE IF Less(hi, exact) THEN x = hi ELSE x = exact
Arithmetic == On("arith") =>
  LET a == call[2]  b == call[3] IN
  CASE Op \in {"p+i", "c+i"} -> Saturated(U(R), Plus(U(a), I(b)), Zero, U32Max)
    [] Op = "i+i" -> Saturated(I(R), Plus(I(a), I(b)), I32Min, I32Max) /\ IncPlus(b, a) = R
    [] Op = "b*s" -> /\ (a = <<128, 0, 0, 0>> \/ b = Zeros(4)) => R = Zeros(4)          \* no bend, no change
                     /\ a[1] < 128 => ~Less(Zero, I(R))                                 \* down is down
                     /\ a[1] >= 128 => ~Less(I(R), Zero)
                     /\ a = Zeros(4) => (b[1] < 128 => I(R) = Neg(U(b)))                \* full bend down is the sensitivity
                     /\ Leq(I(R), U(b)) /\ Leq(Neg(U(b)), I(R))                         \* never more than the sensitivity
\* order, bounds and exactness of conversions from reals
Real(o, neg, n, sh) == ApiStep(ApiStart, [o |-> o, i |-> << <<neg, sh>>, Seven(n) >>, r |-> <<>>]).want[1]
Value(o, b) == IF o = "r79" THEN <<0, FromBe16(b)>> ELSE IF o = "r725" THEN U(b) ELSE I(b)
Reals == On("reals") =>
  LET neg == call[2][1]  sh == call[2][2]  v == Value(Op, R) IN
  /\ (neg = 1 /\ Op # "rinc") => v = Zero
  /\ call[3] = Zeros(7) => v = Zero
  /\ \A n \in Ns : LET w == Value(Op, Real(Op, neg, n, sh))  less == Less(U(Be32(n)), U(SubSeq(call[3], 4, 7))) IN
        less => IF neg = 1 THEN Leq(v, w) ELSE Leq(w, v)
  /\ (Op = "rinc" /\ neg = 0) => LET w == I(Real(Op, 1, FromBe16(<<0, 0>>) + (call[3][4] * 16777216 + call[3][5] * 65536 + call[3][6] * 256 + call[3][7]), sh)) IN
        w = Neg(v) \/ (v = I32Max /\ w = I32Min)
-----------------------------------------------------------------------------
Behaviour == [ case |-> << call >>, expect |-> << out >> ]
Show == (Print0 /\ call # <<>>) => PrintT("BEHAVIOUR " \o ToJson(Behaviour))
=============================================================================
