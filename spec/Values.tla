------------------------------- MODULE Values -------------------------------
(* Value types: resolution changes, fixed point arithmetic, real conversions. *)
EXTENDS Words

-----------------------------------------------------------------------------
(* Resolution changes.  Widening x bits to y: zero..centre is a plain shift;
   above, the bits below the top bit are repeated to fill.                   *)
Upsample(v, x, y) ==     \* -> y bits, v < 2^x as bits
  LET low == SubSeq(v, 2, x)                         \* all but the top bit
      above == v[1] = 1 /\ \E k \in 1..(x - 1) : low[k] = 1
  IN  v \o [k \in 1..(y - x) |-> IF above THEN low[((k - 1) % (x - 1)) + 1] ELSE 0]
Word(bs) == BytesFromBits(Zeros(32 - Len(bs)) \o bs)   \* up to 32 bits as 4 bytes
\* low x bits of a 4 byte word
LowBits(w, x) == LET b == BitsFromBytes(w) IN SubSeq(b, 33 - x, 32)
UpWord(v, x, y) == Word(Upsample(BitsOf(v, x), x, y))
\* the top n bits of a 16 or 32 bit value given as bytes
Top(bytes, n) == FromBits(SubSeq(BitsFromBytes(bytes), 1, n))

-----------------------------------------------------------------------------
(* Fixed point arithmetic; operands and results are 4 bytes *)
PitchPlus(p, i)   == ToBytes(ClampU32(Plus(U(p), I(i))))           \* pitch + increment
IncPlus(a, b)     == ToBytes(ClampI32(Plus(I(a), I(b))))           \* increment + increment
CtrlPlus(c, i)    == ToBytes(ClampU32(Plus(U(c), I(i))))           \* controller + increment
BendTimes(b, s)   ==                                               \* bend * sensitivity
  LET off == Minus(U(b), <<32768, 0>>)
      neg == off[1] < 0
      mag == ToBytes(IF neg THEN Neg(off) ELSE off)
      q   == Wide(SubSeq(Product(mag, s), 1, 64 - 31))
  IN  ToBytes(ClampI32(IF neg THEN Neg(q) ELSE q))
Pitch79To725(p)   == p \o <<0, 0>>
NoteTo79(n)       == Be16(n * 512)
NoteTo725(n)      == << n * 2, 0, 0, 0 >>

-----------------------------------------------------------------------------
(* Real numbers are given as sign, natural n (bits) and s: +- n / 2^s *)
IsZero(n) == \A k \in DOMAIN n : n[k] = 0
AtLeastPow(n, k) ==  \* n >= 2^k
  Len(n) > k /\ \E j \in 1..(Len(n) - k) : n[j] = 1
\* nearest multiple of 2^-f, in units of 2^-f; the caller keeps it below 2^46
Nearest(n, s, f) == IF s <= f THEN Wide(n \o Zeros(f - s)) ELSE RoundDrop(n, s - f)
\* 7.9 and 7.25 pitches from reals
PitchFromReal(neg, n, s, f, max) ==
  IF neg \/ IsZero(n) THEN Zero
  ELSE IF AtLeastPow(n, s + 7) THEN max
  ELSE Clamp(Nearest(n, s, f), Zero, max)
IncFromReal(neg, n, s) ==
  IF AtLeastPow(n, s + 6) THEN (IF neg THEN I32Min ELSE I32Max)
  ELSE LET v == Nearest(n, s, 25) IN ClampI32(IF neg THEN Neg(v) ELSE v)
PitchPlusReal(p, neg, n, s) ==
  LET d == PitchFromReal(FALSE, n, s, 25, U32Max) IN ClampU32(Plus(U(p), IF neg THEN Neg(d) ELSE d))
\* 0..1 reals: allowed values v for a b bit type, s <= b:  exact up to one half, within one step above
Unit(neg, n, s, b, v) ==
  LET max == IF b = 16 THEN <<0, 65535>> ELSE U32Max
      x == Wide(n \o Zeros(b - s))
      half == IF b = 16 THEN <<0, 32768>> ELSE <<32768, 0>> IN
  IF neg \/ IsZero(n) THEN v = Zero
  ELSE IF AtLeastPow(n, s) THEN v = max
  ELSE IF Leq(x, half) THEN v = x
  ELSE Leq(Minus(x, <<0, 1>>), v) /\ Leq(v, Plus(x, <<0, 1>>)) /\ Less(half, Plus(v, <<0, 1>>))
=============================================================================
