-------------------------------- MODULE Bytes --------------------------------
(* Byte strings as sequences of 0..255, and the handful of string functions   *)
(* that libsub's readers are specified with.                                  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

\* the code of each one-character string
CodeOf == TLCEval([c \in { SubSeq(Printable, i, i) : i \in 1..Len(Printable) } |->
             31 + CHOOSE i \in 1..Len(Printable) : SubSeq(Printable, i, i) = c])

\* the bytes of a TLA+ string literal
B(s) == TLCEval([i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]])

LF == 10
CR == 13
TAB == 9
SPC == 32

Blank == {32, 9, 10, 11, 12, 13}     \* what trim() removes
IsDigit(c) == c >= 48 /\ c <= 57
IsHex(c) == IsDigit(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
HexVal(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
LowerC(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
Lower(s) == TLCEval([i \in 1..Len(s) |-> LowerC(s[i])])

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

\* does w occur in s at position i?
At(s, i, w) == i + Len(w) - 1 <= Len(s) /\ \A k \in 1..Len(w) : s[i + k - 1] = w[k]
StartsWith(s, w) == At(s, 1, w)
\* ... ignoring the case of ASCII letters (w in lower case)
AtCI(s, i, w) == i + Len(w) - 1 <= Len(s) /\ \A k \in 1..Len(w) : LowerC(s[i + k - 1]) = w[k]

From(s, i) == SubSeq(s, i, Len(s))

RECURSIVE RTrimTo(_, _, _)
RTrimTo(s, n, set) == IF n > 0 /\ s[n] \in set THEN RTrimTo(s, n - 1, set) ELSE n
RTrim(s, set) == LET n == RTrimTo(s, Len(s), set) IN IF n = Len(s) THEN s ELSE SubSeq(s, 1, n)

RECURSIVE LTrimTo(_, _, _)
LTrimTo(s, i, set) == IF i <= Len(s) /\ s[i] \in set THEN LTrimTo(s, i + 1, set) ELSE i
LTrim(s, set) == LET i == LTrimTo(s, 1, set) IN IF i = 1 THEN s ELSE From(s, i)

Trim(s) == LTrim(RTrim(s, Blank), Blank)

\* position of the first element of set in s at or after i; 0 if there is none
\* (a hundred at a time, so that long strings take no deep recursion)
RECURSIVE FindTo(_, _, _, _)
FindTo(s, i, j, set) == IF i > j THEN 0 ELSE IF s[i] \in set THEN i ELSE FindTo(s, i + 1, j, set)
RECURSIVE Find(_, _, _)
Find(s, i, set) ==
    IF i + 100 > Len(s) THEN FindTo(s, i, Len(s), set)
    ELSE LET l == FindTo(s, i, i + 99, set) IN IF l # 0 THEN l ELSE Find(s, i + 100, set)

\* position of the first occurrence of the word w in s at or after i; 0 if there is none
RECURSIVE FindWord(_, _, _)
FindWord(s, i, w) ==
    LET j == Find(s, i, {w[1]})
    IN  IF j = 0 \/ At(s, j, w) THEN j ELSE FindWord(s, j + 1, w)

\* s cut at every element of set
RECURSIVE SplitFrom(_, _, _, _)
SplitFrom(s, i, set, acc) ==
    LET j == Find(s, i, set)
    IN  IF j = 0 THEN Append(acc, From(s, i))
        ELSE SplitFrom(s, j + 1, set, Append(acc, SubSeq(s, i, j - 1)))
Split(s, set) == SplitFrom(s, 1, set, <<>>)

\* ... taking runs of them as one
RECURSIVE SplitRunsFrom(_, _, _, _)
SplitRunsFrom(s, i, set, acc) ==
    LET j == Find(s, i, set)
    IN  IF j = 0 THEN Append(acc, From(s, i))
        ELSE SplitRunsFrom(s, LTrimTo(s, j, set), set, Append(acc, SubSeq(s, i, j - 1)))
SplitRuns(s, set) == SplitRunsFrom(s, 1, set, <<>>)

\* s cut at every occurrence of the word w
RECURSIVE SplitWordFrom(_, _, _, _)
SplitWordFrom(s, i, w, acc) ==
    LET j == FindWord(s, i, w)
    IN  IF j = 0 THEN Append(acc, From(s, i))
        ELSE SplitWordFrom(s, j + Len(w), w, Append(acc, SubSeq(s, i, j - 1)))
SplitWord(s, w) == SplitWordFrom(s, 1, w, <<>>)

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

Without(s, w) == Concat(SplitWord(s, w))

\* a file's lines: what is between line feeds; nothing follows the last one
Lines(s) ==
    IF s = <<>> THEN <<>>
    ELSE LET ls == Split(s, {LF}) IN IF ls[Len(ls)] = <<>> THEN SubSeq(ls, 1, Len(ls) - 1) ELSE ls

BOM == <<239, 187, 191>>
StripBOM(s) == IF StartsWith(s, BOM) THEN From(s, 4) ELSE s

LineSeparator == <<226, 128, 168>>     \* U+2028
RTLEmbedding == <<226, 128, 171>>      \* U+202B

(* ---- numbers ---- *)

RECURSIVE DigitsVal(_, _, _)
DigitsVal(s, i, v) == IF i > Len(s) THEN v ELSE DigitsVal(s, i + 1, v * 10 + (s[i] - 48))

NoInt == [ok |-> FALSE, v |-> 0]
\* The whole of s as a decimal integer with an optional sign.  Magnitudes of ten
\* digits and more are taken not to fit.
ParseInt(s) ==
    LET signed == s # <<>> /\ s[1] \in {43, 45}
        d == IF signed THEN From(s, 2) ELSE s
        z == LTrim(d, {48})
    IN  IF d = <<>> \/ \E i \in 1..Len(d) : ~IsDigit(d[i]) \/ Len(z) > 9 THEN NoInt
        ELSE LET v == DigitsVal(z, 1, 0) IN [ok |-> TRUE, v |-> IF s[1] = 45 THEN -v ELSE v]

RECURSIVE DigitsEnd(_, _)
DigitsEnd(s, i) == IF i <= Len(s) /\ IsDigit(s[i]) THEN DigitsEnd(s, i + 1) ELSE i

\* The integer that s begins with (after blanks); 0 if there is none
LeadingInt(s) ==
    LET t == LTrim(s, Blank)
        signed == t # <<>> /\ t[1] \in {43, 45}
        d == IF signed THEN From(t, 2) ELSE t
        v == DigitsVal(SubSeq(d, 1, DigitsEnd(d, 1) - 1), 1, 0)
    IN  IF signed /\ t[1] = 45 THEN -v ELSE v

\* Twenty times the decimal number (of at most two decimals) that s begins with; 0 if there is none
LeadingTwentieths(s) ==
    LET t == LTrim(s, Blank)
        signed == t # <<>> /\ t[1] \in {43, 45}
        d == IF signed THEN From(t, 2) ELSE t
        e == DigitsEnd(d, 1)
        whole == DigitsVal(SubSeq(d, 1, e - 1), 1, 0)
        dot == e <= Len(d) /\ d[e] = 46
        f == IF dot THEN SubSeq(d, e + 1, Min(e + 2, DigitsEnd(d, e + 1) - 1)) ELSE <<>>
        hundredths == IF Len(f) = 0 THEN 0 ELSE IF Len(f) = 1 THEN 10 * DigitsVal(f, 1, 0) ELSE DigitsVal(f, 1, 0)
        v == 20 * whole + hundredths \div 5
    IN  IF signed /\ t[1] = 45 THEN -v ELSE v

\* The colour byte at position i of a string of hex digits
HexByte(s, i) == 16 * HexVal(s[i]) + HexVal(s[i + 1])

RECURSIVE HexEnd(_, _)
HexEnd(s, i) == IF i <= Len(s) /\ IsHex(s[i]) THEN HexEnd(s, i + 1) ELSE i

RECURSIVE DecOf(_)
DecOf(n) == IF n < 0 THEN <<45>> \o DecOf(-n)
            ELSE IF n < 10 THEN <<48 + n>> ELSE Append(DecOf(n \div 10), 48 + (n % 10))

\* n in decimal with zeros in front up to width w
RECURSIVE Padded(_, _)
Padded(s, w) == IF Len(s) >= w THEN s ELSE Padded(<<48>> \o s, w)
Dec(n, w) == Padded(DecOf(n), w)
\* what a C string of these bytes says
CString(s) == LET z == Find(s, 1, {0}) IN IF z = 0 THEN s ELSE SubSeq(s, 1, z - 1)
==============================================================================
