-------------------------------- MODULE SubRip --------------------------------
(* The SubRip (.srt) reader as a state machine over lines, and its markup      *)
(* scanner as a state machine over positions in a line.                        *)
EXTENDS Tags

(* ---- times ---- *)

\* The time that t says, with the milliseconds after one of sep (a byte):
\* [ok, t] or what was expected instead
BadTime(e) == [ok |-> FALSE, t |-> ZeroTime, want |-> e]
ParseTime(t, sep) ==
    LET a == Split(t, {58})
    IN  IF Len(a) # 3 THEN BadTime(B("time in the format h:m:s,ms"))
        ELSE
        LET b == Split(a[3], {sep})
        IN  IF Len(b) # 2 THEN BadTime(B("time in the format h:m:s") \o <<sep>> \o B("ms"))
            ELSE
            LET h == ParseInt(a[1])  m == ParseInt(a[2])  s == ParseInt(b[1])  ms == ParseInt(b[2])
            IN  IF ~h.ok THEN BadTime(B("integer hour value"))
                ELSE IF ~m.ok THEN BadTime(B("integer minute value"))
                ELSE IF ~s.ok THEN BadTime(B("integer second value"))
                ELSE IF ~ms.ok THEN BadTime(B("integer millisecond value"))
                ELSE [ok |-> TRUE, t |-> MsTime(h.v, m.v, s.v, ms.v), want |-> <<>>]

(* ---- the reader's state ---- *)

Fresh == [DefaultRaw EXCEPT !.v = <<TopOfSubtitle, <<0>>, <<>>, <<>>>>]

\* mode   which kind of line comes next
\* rs     style, times and row of the text to come
\* stack  the colours that font tags have set, outermost first
\* n      lines read; ctx the last of them
\* err    <<>> or <<the error that stopped the reader>>; extra: lines still to be added to its context
Start == [mode |-> "counter", rs |-> Fresh, stack |-> <<White>>, subs |-> <<>>, n |-> 0, ctx |-> <<>>,
          err |-> <<>>, extra |-> 0]

Failed(st) == st.err # <<>>

Error(st, saw, want, extra) ==
    [st EXCEPT !.err = <<[line |-> st.n, saw |-> saw, want |-> want]>>, !.extra = extra, !.mode = "failed"]

(* ---- the markup scanner ---- *)
(* sc = [i, rs, stack, subs, err]: position, style and text so far, ...        *)

Flush(sc) ==
    IF sc.rs.t = <<>> THEN sc
    ELSE [sc EXCEPT !.subs = Append(@, sc.rs), !.rs.t = <<>>]

L_tag(n) == { B("<" \o n \o ">"), B("{" \o n \o "}") }
Simple == [ bold   |-> <<L_tag("b"), L_tag("/b")>>, italic |-> <<L_tag("i"), L_tag("/i")>>,
            underline |-> <<L_tag("u"), L_tag("/u")>> ]
L_font == B("<font")
L_endfont == B("</font>")
L_brace == B("{\\")
L_color == B("color=")
L_rgba == B("color=\"rgba(")

HasAny(t, i, set) == \E w \in set : AtCI(t, i, w)
LenAny(t, i, set) == Len(CHOOSE w \in set : AtCI(t, i, w))

\* Positions in s where color=#hex (in any case, with an optional quote) begins its hex digits
HexColourAts(s) ==
    { j \in 1..Len(s) : /\ IsHex(s[j]) /\ j > 1 /\ s[j - 1] = 35
                        /\ \/ j > Len(L_color) + 1 /\ AtCI(s, j - 1 - Len(L_color), L_color)
                           \/ /\ j > Len(L_color) + 2 /\ s[j - 2] \in {34, 39}
                              /\ AtCI(s, j - 2 - Len(L_color), L_color) }

\* Skip blanks, a number, blanks and the byte after: <<number, next position>> or <<-1, 0>>
NumberThen(s, i, after) ==
    LET a == LTrimTo(s, i, Blank)
        e == DigitsEnd(s, a)
        b == LTrimTo(s, e, Blank)
    IN  IF e > a /\ b <= Len(s) /\ s[b] = after THEN <<DigitsVal(SubSeq(s, a, e - 1), 1, 0), b + 1>> ELSE <<-1, 0>>

RgbaAt(s, j) ==
    LET r == NumberThen(s, j + Len(L_rgba), 44)
        g == IF r[1] >= 0 THEN NumberThen(s, r[2], 44) ELSE r
        b == IF g[1] >= 0 THEN NumberThen(s, g[2], 44) ELSE g
        a == IF b[1] >= 0 THEN NumberThen(s, b[2], 41) ELSE b
    IN  IF a[1] >= 0 /\ a[2] <= Len(s) /\ s[a[2]] = 34 THEN <<r[1], g[1], b[1]>> ELSE <<>>

\* The colour in the attributes of a font tag: <<>> if there is none that can be understood
FontColour(s) ==
    LET ats == HexColourAts(s)
    IN  IF ats # {} THEN
            LET j == CHOOSE x \in ats : \A y \in ats : y <= x
                d == SubSeq(s, j, HexEnd(s, j) - 1)
            IN  IF Len(d) \in {6, 8} THEN <<HexByte(d, 1), HexByte(d, 3), HexByte(d, 5)>> ELSE <<>>
        ELSE
            LET rs == { j \in 1..Len(s) : AtCI(s, j, L_rgba) /\ RgbaAt(s, j) # <<>> }
            IN  IF rs = {} THEN <<>> ELSE RgbaAt(s, CHOOSE x \in rs : \A y \in rs : y <= x)

EndOr(i, t) == IF i = 0 THEN Len(t) + 1 ELSE i

L_wantcolour == B("a colour in the format #rrggbb #rrggbbaa or rgba(rr,gg,bb,aa)")

\* brace override tags are read as for a 288 x 288 script with white text
SubRipContext == [rx |-> 288, ry |-> 288, colour |-> White, left |-> 0, right |-> 0]

\* One step of the scanner over line t
ScanStep(t, sc) ==
    LET i == sc.i
        fl == Flush(sc)
        Style(set, rs) == [fl EXCEPT !.rs = rs, !.i = i + LenAny(t, i, set)]
    IN  CASE HasAny(t, i, Simple.bold[1]) -> Style(Simple.bold[1], SetBold(fl.rs, 1))
          [] HasAny(t, i, Simple.bold[2]) -> Style(Simple.bold[2], SetBold(fl.rs, 0))
          [] HasAny(t, i, Simple.italic[1]) -> Style(Simple.italic[1], SetItalic(fl.rs, 1))
          [] HasAny(t, i, Simple.italic[2]) -> Style(Simple.italic[2], SetItalic(fl.rs, 0))
          [] HasAny(t, i, Simple.underline[1]) -> Style(Simple.underline[1], SetUnderline(fl.rs, 1))
          [] HasAny(t, i, Simple.underline[2]) -> Style(Simple.underline[2], SetUnderline(fl.rs, 0))
          [] AtCI(t, i, L_font) ->
                LET e == EndOr(Find(t, i + 5, {62}), t)
                    attrs == SubSeq(t, i + 5, e - 1)
                    col == FontColour(attrs)
                IN  IF col = <<>> THEN [fl EXCEPT !.err = <<attrs>>, !.i = e + 1]
                    ELSE [fl EXCEPT !.rs.c = col, !.stack = Append(@, col), !.i = e + 1]
          [] AtCI(t, i, L_endfont) ->
                LET s == IF Len(fl.stack) > 1 THEN SubSeq(fl.stack, 1, Len(fl.stack) - 1) ELSE fl.stack
                IN  [fl EXCEPT !.stack = s, !.rs.c = s[Len(s)], !.i = i + 7]
          [] At(t, i, L_brace) ->
                LET e == EndOr(Find(t, i + 2, {125}), t)
                    a == ApplyTag(sc.rs, <<92>> \o SubSeq(t, i + 2, e - 1), SubRipContext)
                IN  \* text so far keeps the style that it had
                    IF a.err # "" THEN [fl EXCEPT !.thrown = a.err, !.i = e + 1]
                    ELSE [fl EXCEPT !.rs = [a.r EXCEPT !.t = <<>>], !.i = e + 1]
          [] OTHER -> [sc EXCEPT !.rs.t = Append(@, t[i]), !.i = i + 1]

Scanned(t, sc) == sc.err # <<>> \/ sc.thrown # "" \/ sc.i > Len(t)

\* (by the hundred, which keeps TLC's stack shallow)
RECURSIVE ScanSteps(_, _, _), ScanAll(_, _)
ScanSteps(t, sc, n) == IF n = 0 \/ Scanned(t, sc) THEN sc ELSE ScanSteps(t, ScanStep(t, sc), n - 1)
ScanAll(t, sc) == IF Scanned(t, sc) THEN sc ELSE ScanAll(t, ScanSteps(t, sc, 100))
Scan(t, sc) == LET all == ScanAll(t, sc) IN IF all.err # <<>> \/ all.thrown # "" THEN all ELSE Flush(all)

ScanStart(st) == [i |-> 1, rs |-> st.rs, stack |-> st.stack, subs |-> st.subs, err |-> <<>>, thrown |-> ""]

\* One row of text, and on to the next row
Row(st, t) ==
    LET sc == Scan(Without(t, RTLEmbedding), ScanStart(st))
        st2 == [st EXCEPT !.rs = [sc.rs EXCEPT !.v[2] = <<st.rs.v[2][1] + 1>>], !.stack = sc.stack, !.subs = sc.subs]
    IN  IF sc.err # <<>> THEN Error(st2, sc.err[1], L_wantcolour, 0)
        ELSE IF sc.thrown # "" THEN [st2 EXCEPT !.err = <<[thrown |-> sc.thrown]>>, !.mode = "failed"]
        ELSE st2

RECURSIVE Rows(_, _, _)
Rows(st, parts, k) ==
    IF k > Len(parts) \/ Failed(st) THEN st ELSE Rows(Row(st, parts[k]), parts, k + 1)

(* ---- the reader's transitions: one line each ---- *)

Remember(ctx, l) == LET c == Append(ctx, l) IN IF Len(c) > 5 THEN Tail(c) ELSE c

Tidy(raw) == StripBOM(RTrim(raw, {LF, CR}))

ReadCounter(st, l) ==
    IF l = <<>> THEN st ELSE [st EXCEPT !.mode = "metadata", !.rs = Fresh, !.stack = <<White>>]

ReadMetadata(st, l0) ==
    LET l == RTrim(l0, {SPC})
        p == SplitRuns(l, {SPC})
    IN  IF Len(p) \notin {3, 7} THEN Error(st, l, B("a time/position line"), 2)
        ELSE
        LET from == ParseTime(p[1], 44)
            to == ParseTime(p[3], 44)
        IN  IF ~from.ok THEN Error(st, p[1], from.want, 0)
            ELSE IF ~to.ok THEN Error(st, p[3], to.want, 0)
            ELSE [st EXCEPT !.rs.f = from.t, !.rs.o = to.t, !.mode = "content"]

ReadContent(st, l) ==
    IF l = <<>> THEN [st EXCEPT !.mode = "counter"]
    ELSE Rows(st, SplitWord(l, LineSeparator), 1)

ReadLine(st, raw) ==
    IF Failed(st) THEN
        \* only the context of the error may still grow
        IF st.extra > 0 THEN [st EXCEPT !.ctx = Append(@, RTrim(raw, {LF, CR})), !.extra = @ - 1] ELSE st
    ELSE
    LET l == Tidy(raw)
        st1 == [st EXCEPT !.n = @ + 1, !.ctx = Remember(@, l)]
    IN  CASE st.mode = "counter" -> ReadCounter(st1, l)
          [] st.mode = "metadata" -> ReadMetadata(st1, l)
          [] st.mode = "content" -> ReadContent(st1, l)

RECURSIVE ReadLines(_, _, _)
ReadLines(st, ls, k) == IF k > Len(ls) THEN st ELSE ReadLines(ReadLine(st, ls[k]), ls, k + 1)

(* ---- what can be observed at the end ---- *)

ErrorText(e) ==
    CString(B("Error in SubRip file line ") \o DecOf(e.line) \o B(": saw ")
        \o (IF e.saw = <<>> THEN B("an empty string") ELSE e.saw) \o B(" when expecting ") \o e.want)

Result(st) ==
    IF ~Failed(st) THEN [err |-> "", subs |-> st.subs]
    ELSE LET e == st.err[1]
         IN  IF "thrown" \in DOMAIN e THEN [err |-> e.thrown]
             ELSE [err |-> "SubripError", line |-> e.line, msg |-> ErrorText(e), ctx |-> st.ctx]

Read(bytes) == Result(ReadLines(Start, Lines(bytes), 1))
===============================================================================
