-------------------------------- MODULE Dump --------------------------------
(* What the dump of a reader looks like.  Positions are in hundredths.            *)
EXTENDS Collect

\* n hundredths as a decimal number, as short as possible
Fraction(r) == IF r % 10 # 0 THEN <<46, 48 + (r \div 10), 48 + (r % 10)>> ELSE IF r # 0 THEN <<46, 48 + (r \div 10)>> ELSE <<>>
Decimal(n) == IF n < 0 THEN <<45>> \o DecOf((-n) \div 100) \o Fraction((-n) % 100) ELSE DecOf(n \div 100) \o Fraction(n % 100)

RefName(ref) == CASE ref = Top -> B("top") [] ref = Middle -> B("centre") [] ref = Bottom -> B("bottom") [] ref = TopOfSubtitle -> B("top of subtitle")

PositionText(v) ==
    (IF v[4] # <<>> THEN Decimal(v[4][1]) \o B(" of screen")
     ELSE IF v[2] # <<>> /\ v[3] # <<>> THEN DecOf(v[2][1]) \o B(" lines of ") \o DecOf(v[3][1]) ELSE <<>>)
    \o (IF v[1] >= 0 THEN B(" from ") \o RefName(v[1]) ELSE <<>>)

ItalicOn == B("<i>")
ItalicOff == B("</i>")
UnderlineOn == B("<u>")
UnderlineOff == B("</u>")

Change(was, is, on, off) == IF was = is THEN <<>> ELSE IF is = 1 THEN on ELSE off

\* the text of a line: a machine over its blocks, it: [italic, underline] in force
RECURSIVE BlocksText(_, _, _)
BlocksText(bs, i, it) ==
    IF i > Len(bs) THEN Change(it[1], 0, ItalicOn, ItalicOff) \o Change(it[2], 0, UnderlineOn, UnderlineOff)
    ELSE LET s == bs[i].s
         IN  Change(it[1], s[2], ItalicOn, ItalicOff) \o Change(it[2], s[3], UnderlineOn, UnderlineOff) \o bs[i].t \o BlocksText(bs, i + 1, <<s[2], s[3]>>)

LineText(l) == <<TAB>> \o PositionText(l.v) \o <<TAB>> \o BlocksText(l.b, 1, <<0, 0>>) \o <<LF>>
RECURSIVE LinesText(_, _)
LinesText(ls, i) == IF i > Len(ls) THEN <<>> ELSE LineText(ls[i]) \o LinesText(ls, i + 1)

SubtitleText(s, n) == B("Subtitle ") \o DecOf(n) \o B(" at ") \o TimeText(s.f) \o B(" -> ") \o TimeText(s.o) \o <<LF>> \o LinesText(s.l, 1)
RECURSIVE SubtitlesText(_, _)
SubtitlesText(subs, n) == IF n = Len(subs) THEN <<>> ELSE SubtitleText(subs[n + 1], n) \o SubtitlesText(subs, n + 1)

\* meta: <<name, value>>s in order of name
RECURSIVE MetaText(_, _)
MetaText(m, i) == IF i > Len(m) THEN <<>> ELSE m[i][1] \o B(": ") \o m[i][2] \o <<LF>> \o MetaText(m, i + 1)

DumpText(meta, raw) == MetaText(meta, 1) \o SubtitlesText(CollectAll(raw), 0)
=============================================================================
