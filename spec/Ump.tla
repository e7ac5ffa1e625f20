-------------------------------- MODULE Ump --------------------------------
(* The universal MIDI packet: 16 bytes of storage, of which the message type
   (upper nibble of the first byte) makes 4, 8, 12 or 16 significant.         *)
EXTENDS Values

P16(b) == Pad(b, 16)
Type(p)  == Hi(p[1])
Group(p) == Lo(p[1])
WordsOfType == << 1, 1, 1, 2, 2, 4, 1, 1, 2, 2, 2, 3, 3, 4, 4, 4 >>
Size(p)  == WordsOfType[Type(p) + 1]
Sig(p)   == SubSeq(p, 1, 4 * Size(p))            \* the significant bytes
Same(p, q) == Sig(p) = Sig(q)
HasChannel(p) == Type(p) \in {2, 4, 13}
Chan(p)  == Lo(p[2])
Put(p, i, v) == [p EXCEPT ![i + 1] = v]          \* byte i, counted from 0

SystemStatus == {241, 242, 243, 246, 248, 250, 251, 252, 254, 255}
Midi1Protocol(p) == \/ Type(p) = 1 /\ p[2] \in SystemStatus
                    \/ Type(p) = 2 /\ p[2] \in 128..239

(* text form: lower case hexadecimal words separated by blanks *)
Digit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
Hex(b) == << Digit(Hi(b)), Digit(Lo(b)) >>
WordText(w) == Cat([k \in 1..4 |-> Hex(w[k])])
Text(p) == Cat([k \in 1..Size(p) |-> (IF k > 1 THEN <<32>> ELSE <<>>) \o WordText(SubSeq(p, 4 * k - 3, 4 * k))])

IsBlank(c) == c \in {32, 9, 10, 11, 12, 13}
DigitOf(c) == CASE c \in 48..57 -> c - 48 [] c \in 97..102 -> c - 87 [] c \in 65..70 -> c - 55 [] OTHER -> 16
IsDigit(c) == DigitOf(c) < 16
\* fields of a text: maximal runs of non blank characters
Fields(t) ==
  LET step(acc, c) == IF IsBlank(c) THEN [acc EXCEPT !.open = FALSE]
                      ELSE IF acc.open THEN [acc EXCEPT !.fs[Len(acc.fs)] = Append(@, c)]
                      ELSE [open |-> TRUE, fs |-> Append(acc.fs, <<c>>)]
  IN  FoldLeft(step, [open |-> FALSE, fs |-> <<>>], t).fs
\* a field is a word if it has only hexadecimal digits and its value fits 32 bits
SigDigits(f) == LET nz == {k \in DOMAIN f : f[k] # 48} IN
                IF nz = {} THEN <<>> ELSE SubSeq(f, CHOOSE k \in nz : \A j \in nz : k <= j, Len(f))
IsWord(f) == (\A k \in DOMAIN f : IsDigit(f[k])) /\ Len(SigDigits(f)) <= 8
WordOf(f) == LET d == Const(8 - Len(SigDigits(f)), 48) \o SigDigits(f) IN
             [k \in 1..4 |-> DigitOf(d[2 * k - 1]) * 16 + DigitOf(d[2 * k])]
\* the packets at the head of a text whose fields are all words or wholly malformed (no leading digit)
RECURSIVE PacketsIn(_)
PacketsIn(fs) ==
  IF fs = <<>> \/ ~IsWord(fs[1]) THEN <<>>
  ELSE LET n == WordsOfType[Hi(WordOf(fs[1])[1]) + 1] IN
       IF Len(fs) < n \/ \E k \in 1..n : ~IsWord(fs[k]) THEN <<>>
       ELSE << Cat([k \in 1..n |-> WordOf(fs[k])]) >> \o PacketsIn(SubSeq(fs, n + 1, Len(fs)))
=============================================================================
