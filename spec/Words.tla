------------------------------- MODULE Words -------------------------------
(* Exact arithmetic beyond TLC's 32 bit integers.  A wide integer is a pair
   <<h, l>> standing for h * 65536 + l with 0 <= l < 65536; h may be negative.
   A wide natural may also be a sequence of bits, most significant first.    *)
EXTENDS Bytes

U(w) == << w[1] * 256 + w[2], w[3] * 256 + w[4] >>                  \* 4 bytes, unsigned
I(w) == LET u == U(w) IN IF u[1] >= 32768 THEN << u[1] - 65536, u[2] >> ELSE u   \* two's complement
ToBytes(x) == LET h == (x[1] + 65536) % 65536 IN << h \div 256, h % 256, x[2] \div 256, x[2] % 256 >>

Plus(x, y)  == LET l == x[2] + y[2] IN << x[1] + y[1] + l \div 65536, l % 65536 >>
Neg(x)      == IF x[2] = 0 THEN << -x[1], 0 >> ELSE << -x[1] - 1, 65536 - x[2] >>
Minus(x, y) == Plus(x, Neg(y))
Less(x, y)  == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
Leq(x, y)   == ~Less(y, x)
Clamp(x, lo, hi) == IF Less(x, lo) THEN lo ELSE IF Less(hi, x) THEN hi ELSE x

U32Max == << 65535, 65535 >>
I32Max == << 32767, 65535 >>
I32Min == << -32768, 0 >>
Zero   == << 0, 0 >>
ClampU32(x) == Clamp(x, Zero, U32Max)
ClampI32(x) == Clamp(x, I32Min, I32Max)

\* product of two 4 byte naturals as 64 bits, most significant first
Product(a, b) ==
  LET A == Reverse(a)  B == Reverse(b)
      conv == [k \in 1..8 |-> FoldLeft(LAMBDA acc, i : acc + (IF k - i + 1 \in 1..4 THEN A[i] * B[k - i + 1] ELSE 0), 0, <<1, 2, 3, 4>>)]
      carry == FoldLeft(LAMBDA acc, k : LET v == conv[k] + acc.c IN [c |-> v \div 256, d |-> <<v % 256>> \o acc.d],
                        [c |-> 0, d |-> <<>>], <<1, 2, 3, 4, 5, 6, 7, 8>>)
  IN  BitsFromBytes(carry.d)

\* a natural given by bits as a pair (up to 47 bits)
Wide(bs) == LET n == Len(bs) IN
            IF n <= 16 THEN << 0, FromBits(bs) >>
            ELSE << FromBits(SubSeq(bs, 1, n - 16)), FromBits(SubSeq(bs, n - 15, n)) >>
\* bits n div 2^k, and rounded half up
DropLow(bs, k) == IF k >= Len(bs) THEN <<0>> ELSE SubSeq(bs, 1, Len(bs) - k)
RoundDrop(bs, k) ==
  LET w == Wide(DropLow(bs, k)) IN
  IF k >= 1 /\ k <= Len(bs) /\ bs[Len(bs) - k + 1] = 1 THEN Plus(w, <<0, 1>>) ELSE w
=============================================================================
