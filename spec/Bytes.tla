------------------------------- MODULE Bytes -------------------------------
(* Bytes, bits and byte strings.  TLC integers are 32 bit signed, so a word is
   a sequence of 4 bytes (big endian), a packet a sequence of 4, 8, 12 or 16
   bytes, a text a sequence of bytes.                                        *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

Hi(b)  == b \div 16                     \* upper nibble of a byte
Lo(b)  == b % 16                        \* lower nibble of a byte
Byte(h, l) == (h % 16) * 16 + (l % 16)
B7(b)  == b % 128                       \* lower seven bits
BitAt(b, k) == (b \div (2^k)) % 2       \* bit k of a (non-negative) number

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

Zeros(n) == [k \in 1..n |-> 0]
Const(n, v) == [k \in 1..n |-> v]
Pad(s, n) == IF Len(s) >= n THEN s ELSE s \o Zeros(n - Len(s))

\* bytes i..j (1-based), clipped to what is there
Slice(s, i, j) == SubSeq(s, i, IF j < Len(s) THEN j ELSE Len(s))

Be16(v) == << (v \div 256) % 256, v % 256 >>
FromBe16(s) == s[1] * 256 + s[2]
\* 31 bit number to big endian bytes
Be32(v) == << (v \div 16777216) % 256, (v \div 65536) % 256, (v \div 256) % 256, v % 256 >>
Be24(v) == << (v \div 65536) % 256, (v \div 256) % 256, v % 256 >>

Bool(x) == IF x THEN 1 ELSE 0

\* concatenation of a sequence of sequences
Cat(ss) == FoldLeft(LAMBDA acc, s : acc \o s, <<>>, ss)

\* split s into pieces of at most n elements (at least one piece, possibly empty)
Pieces(s, n) ==
  LET k == IF Len(s) = 0 THEN 1 ELSE (Len(s) + n - 1) \div n
  IN  [i \in 1..k |-> Slice(s, (i - 1) * n + 1, i * n)]

\* 4 bytes as 32 bits, most significant first, and back
Bits8(b) == [k \in 1..8 |-> (b \div (2^(8 - k))) % 2]
BitsOf(v, n) == [k \in 1..n |-> (v \div (2^(n - k))) % 2]
FromBits(bs) == FoldLeft(LAMBDA acc, x : 2 * acc + x, 0, bs)
BytesFromBits(bs) == [k \in 1..(Len(bs) \div 8) |-> FromBits(SubSeq(bs, 8 * (k - 1) + 1, 8 * k))]
BitsFromBytes(s) == Cat([k \in 1..Len(s) |-> Bits8(s[k])])
=============================================================================
