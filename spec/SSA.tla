---------------------------------- MODULE SSA ----------------------------------
(* The SSA/ASS reader: a machine over lines, and within an event's text a        *)
(* machine over bytes.                                                           *)
EXTENDS Tags

(* ---- styles ---- *)

PlainStyle == [name |-> <<>>, fn |-> <<>>, fs |-> 72, col |-> White, back |-> <<>>, s |-> <<0, 0, 0>>, e |-> "",
               hr |-> Centre, vr |-> Bottom, mv |-> 0, ml |-> 0, mr |-> 0]

\* A style's colour: &Hbbggrr, &Haabbggrr or a decimal number
StyleColour(s) ==
    IF s # <<>> /\ s[1] = 38 THEN
        IF IsHexColour(s) THEN [ok |-> TRUE, c |-> HexColour(s)] ELSE [ok |-> FALSE, c |-> White]
    ELSE LET n == LeadingInt(s)
         IN  [ok |-> TRUE, c |-> <<n % 256, (n \div 256) % 256, (n \div 65536) % 256>>]

IsYes(s) == IF s = B("-1") THEN 1 ELSE 0
AlignDigit(s) == IF Len(s) = 1 /\ IsDigit(s[1]) THEN s[1] - 48 ELSE 0
HorizontalOf(d) == CASE d \in {1, 4, 7} -> Left [] d \in {3, 6, 9} -> Right [] OTHER -> Centre
VerticalOf(d) == CASE d \in {7, 8, 9} -> Top [] d \in {4, 5, 6} -> Middle [] OTHER -> Bottom

K_Name == B("Name")           K_Fontname == B("Fontname")   K_Fontsize == B("Fontsize")
K_Primary == B("PrimaryColour") K_Back == B("BackColour")   K_Bold == B("Bold")
K_Italic == B("Italic")       K_Underline == B("Underline") K_Border == B("BorderStyle")
K_Alignment == B("Alignment") K_MarginV == B("MarginV")     K_MarginL == B("MarginL")
K_MarginR == B("MarginR")     K_Start == B("Start")         K_End == B("End")
K_Style == B("Style")         K_Text == B("Text")           K_Default == B("Default")

\* one column of a style
StyleField(st, key, v) ==
    CASE key = K_Name -> [st EXCEPT !.name = v]
      [] key = K_Fontname -> [st EXCEPT !.fn = <<v>>]
      [] key = K_Fontsize -> [st EXCEPT !.fs = LeadingInt(v)]
      [] key = K_Primary -> [st EXCEPT !.col = StyleColour(v).c]
      [] key = K_Back -> [st EXCEPT !.back = <<StyleColour(v).c>>]
      [] key = K_Bold -> [st EXCEPT !.s[1] = IsYes(v)]
      [] key = K_Italic -> [st EXCEPT !.s[2] = IsYes(v)]
      [] key = K_Underline -> [st EXCEPT !.s[3] = IsYes(v)]
      [] key = K_Border -> IF v = B("1") THEN [st EXCEPT !.e = "shadow"] ELSE st
      [] key = K_Alignment -> [st EXCEPT !.hr = HorizontalOf(AlignDigit(v)), !.vr = VerticalOf(AlignDigit(v))]
      [] key = K_MarginV -> [st EXCEPT !.mv = LeadingInt(v)]
      [] key = K_MarginL -> [st EXCEPT !.ml = LeadingInt(v)]
      [] key = K_MarginR -> [st EXCEPT !.mr = LeadingInt(v)]
      [] OTHER -> st

Trimmed(fs) == [i \in 1..Len(fs) |-> Trim(fs[i])]

RECURSIVE StyleFields(_, _, _, _)
StyleFields(st, keys, vals, i) ==
    IF i > Len(keys) THEN st ELSE StyleFields(StyleField(st, keys[i], vals[i]), keys, vals, i + 1)

BadColour(keys, vals) == \E i \in 1..Len(keys) : keys[i] \in {K_Primary, K_Back} /\ ~StyleColour(vals[i]).ok

\* [err, style]
MakeStyle(format, body) ==
    LET keys == Trimmed(Split(format, {44}))
        vals == Trimmed(Split(body, {44}))
    IN  IF Len(keys) # Len(vals) THEN [err |-> "SSAError", style |-> PlainStyle]
        ELSE IF BadColour(keys, vals) THEN [err |-> "SSAError", style |-> PlainStyle]
        ELSE [err |-> "", style |-> StyleFields(PlainStyle, keys, vals, 1)]

(* ---- an event's text ---- *)
(* sc: i position; mode; cur the fragment so far; tag; breaks; subs; err         *)

LineHeight(base) == (base.fs[2] * 6) \div 5      \* 1.2 font sizes; sizes here are multiples of 20

ScanBase(base, cx) ==
    LET ref == IF base.v[1] < 0 THEN Bottom ELSE base.v[1]
        r == [base EXCEPT !.v = <<ref, base.v[2], base.v[3], <<0>>>>, !.h[2] = HorizontalOffset(base.h[1], cx)]
    IN  IF base.fs[1] # "pr" THEN [r EXCEPT !.fs = <<"pr", 1440>>] ELSE r

FlushE(sc) == IF sc.cur.t = <<>> THEN sc ELSE [sc EXCEPT !.subs = Append(@, sc.cur), !.cur.t = <<>>]

EventStep(t, sc, cx, height) ==
    LET c == t[sc.i]
        nx == [sc EXCEPT !.i = @ + 1]
    IN  CASE sc.mode = "text" ->
                IF c = 123 THEN [nx EXCEPT !.mode = "tag"]
                ELSE IF c = 92 THEN [nx EXCEPT !.mode = "backslash"]
                ELSE IF c \in {10, 13} THEN nx
                ELSE [nx EXCEPT !.cur.t = Append(@, c)]
          [] sc.mode = "tag" ->
                LET ends == c = 125 \/ c = 92
                    fl == IF ends THEN FlushE(nx) ELSE nx
                    a == ApplyTag(fl.cur, fl.tag, cx)
                    ap == IF ~ends THEN fl
                          ELSE IF a.err # "" THEN [fl EXCEPT !.err = a.err]
                          ELSE [fl EXCEPT !.cur = a.r, !.tag = <<>>]
                IN  IF c = 125 THEN [ap EXCEPT !.mode = "text"] ELSE [ap EXCEPT !.tag = Append(@, c)]
          [] sc.mode = "backslash" ->
                LET back == [nx EXCEPT !.mode = "text"]
                    fl == FlushE(back)
                    sign == IF fl.cur.v[1] = Bottom THEN -1 ELSE 1
                IN  IF c \in {78, 110} THEN [fl EXCEPT !.breaks = @ + 1, !.cur.v[4] = <<@[1] + sign * height>>]
                    ELSE back

RECURSIVE EventScan(_, _, _, _)
EventScan(t, sc, cx, height) ==
    IF sc.err # "" THEN sc
    ELSE IF sc.i > Len(t) THEN FlushE(sc)
    ELSE EventScan(t, EventStep(t, sc, cx, height), cx, height)

\* where a fragment ends up, now that the number of lines is known
Place(r, margin, breaks, height) ==
    [r EXCEPT !.v[4] = << CASE r.v[1] \in {Top, TopOfSubtitle} -> r.v[4][1] + margin
                            [] r.v[1] = Middle -> r.v[4][1] - ((breaks + 1) * height) \div 2
                            [] r.v[1] = Bottom -> r.v[4][1] + margin + breaks * height >>]

\* [err, subs]
EventText(base, t, cx) ==
    LET b == ScanBase(base, cx)
        height == LineHeight(b)
        margin == IF base.v[4] = <<>> THEN 0 ELSE base.v[4][1]
        sc == EventScan(t, [i |-> 1, mode |-> "text", cur |-> b, tag |-> <<>>, breaks |-> 0, subs |-> <<>>, err |-> ""], cx, height)
    IN  [err |-> sc.err, subs |-> [k \in 1..Len(sc.subs) |-> Place(sc.subs[k], margin, sc.breaks, height)]]

(* ---- an event ---- *)

\* h:mm:ss.cc as <<time>>, or <<>>
EventTime(t) ==
    LET b == Split(t, {58, 46})
    IN  IF Len(b) # 4 THEN <<>>
        ELSE <<MsTime(LeadingInt(b[1]), LeadingInt(b[2]), LeadingInt(b[3]), LeadingInt(b[4]) * 10)>>

\* the text may have commas in it: the last column takes all that is left
RECURSIVE JoinFrom(_, _)
JoinFrom(fs, i) == IF i = Len(fs) THEN fs[i] ELSE fs[i] \o <<44>> \o JoinFrom(fs, i + 1)
Reassemble(fs, n) == IF Len(fs) <= n THEN fs ELSE [i \in 1..n |-> IF i < n THEN fs[i] ELSE JoinFrom(fs, n)]

\* the style that name refers to: <<>> if there's none
Named(styles, name) ==
    LET S == { i \in 1..Len(styles) : styles[i].name = name }
    IN  IF S = {} THEN <<>> ELSE <<styles[CHOOSE i \in S : \A j \in S : j <= i]>>
Resolve(styles, name) ==
    LET x == Named(styles, LTrim(name, {42})) IN IF x # <<>> THEN x ELSE Named(styles, K_Default)

WithStyle(r, st) ==
    [r EXCEPT !.fn = st.fn, !.fs = <<"pr", 20 * st.fs>>, !.c = st.col, !.ec = st.back, !.s = st.s, !.e = st.e,
              !.h[1] = st.hr, !.v = <<st.vr, <<>>, <<>>, <<20 * st.mv>>>>]

\* ev: [r, style, mv, ml, mr, text, subs, err]
EventField(ev, key, v, st) ==
    CASE key = K_Start -> IF EventTime(v) = <<>> THEN [ev EXCEPT !.err = "SSAError"] ELSE [ev EXCEPT !.r.f = EventTime(v)[1]]
      [] key = K_End -> IF EventTime(v) = <<>> THEN [ev EXCEPT !.err = "SSAError"] ELSE [ev EXCEPT !.r.o = EventTime(v)[1]]
      [] key = K_Style ->
            LET s == Resolve(st.styles, v) IN IF s = <<>> THEN ev ELSE [ev EXCEPT !.style = s, !.r = WithStyle(ev.r, s[1])]
      [] key = K_MarginV -> IF LeadingTwentieths(v) = 0 THEN ev ELSE [ev EXCEPT !.mv = <<LeadingTwentieths(v)>>]
      [] key = K_MarginL -> IF LeadingInt(v) = 0 THEN ev ELSE [ev EXCEPT !.ml = <<LeadingInt(v)>>]
      [] key = K_MarginR -> IF LeadingInt(v) = 0 THEN ev ELSE [ev EXCEPT !.mr = <<LeadingInt(v)>>]
      [] key = K_Text -> [ev EXCEPT !.text = <<v>>]
      [] OTHER -> ev

RECURSIVE EventFields(_, _, _, _, _)
EventFields(ev, keys, vals, i, st) ==
    IF i > Len(keys) \/ ev.err # "" THEN ev
    ELSE EventFields(EventField(ev, keys[i], vals[i], st), keys, vals, i + 1, st)

\* the text comes last, whatever the order of the columns, as everything else bears on it
EventEnd(ev, st) ==
    IF ev.err # "" \/ ev.text = <<>> THEN ev
    ELSE
    LET base == IF ev.mv # <<>> THEN [ev.r EXCEPT !.v[4] = ev.mv] ELSE ev.r
        Pick(x, d) == IF x # <<>> THEN x[1] ELSE d
        s == IF ev.style = <<>> THEN PlainStyle ELSE ev.style[1]
        cx == [rx |-> st.rx, ry |-> st.ry, colour |-> IF ev.style = <<>> THEN White ELSE s.col,
               left |-> Pick(ev.ml, s.ml), right |-> Pick(ev.mr, s.mr)]
        x == EventText(base, ev.text[1], cx)
    IN  [ev EXCEPT !.subs = x.subs, !.err = x.err]

Dialogue(st, body) ==
    IF st.eformat = <<>> THEN [st EXCEPT !.err = "SSAError"]
    ELSE
    LET vals == Trimmed(Reassemble(Split(body, {44}), Len(st.eformat)))
    IN  IF Len(vals) # Len(st.eformat) THEN [st EXCEPT !.err = "SSAError"]
        ELSE LET ev == EventEnd(EventFields([r |-> DefaultRaw, style |-> <<>>, mv |-> <<>>, ml |-> <<>>, mr |-> <<>>, text |-> <<>>, subs |-> <<>>, err |-> ""],
                                            st.eformat, vals, 1, st), st)
             IN  [st EXCEPT !.subs = @ \o ev.subs, !.err = ev.err]

(* ---- the reader's transitions: one line each ---- *)

SSAStart == [part |-> "info", rx |-> 288, ry |-> 288, styles |-> <<>>, sformat |-> <<>>, eformat |-> <<>>, subs |-> <<>>, err |-> ""]

Section(l) ==
    CASE l = B("[Script Info]") -> "info"
      [] l = B("[V4 Styles]") \/ l = B("[V4+ Styles]") -> "styles"
      [] l = B("[Events]") -> "events"
      [] OTHER -> "other"

SSAReadLine(st, raw) ==
    LET l == StripBOM(Trim(raw))
        colon == Find(l, 1, {58})
        type == SubSeq(l, 1, colon - 1)
        body == Trim(From(l, colon + 1))
    IN  IF st.err # "" \/ l = <<>> \/ l[1] = 59 THEN st
        ELSE IF l[1] = 91 THEN [st EXCEPT !.part = Section(l)]
        ELSE IF st.part = "other" THEN st
        ELSE IF colon = 0 THEN [st EXCEPT !.err = "SSAError"]
        ELSE
        CASE st.part = "info" ->
                \* (a resolution which is not positive means nothing)
                IF type = B("PlayResX") /\ LeadingInt(body) > 0 THEN [st EXCEPT !.rx = LeadingInt(body)]
                ELSE IF type = B("PlayResY") /\ LeadingInt(body) > 0 THEN [st EXCEPT !.ry = LeadingInt(body)]
                ELSE st
          [] st.part = "styles" ->
                IF type = B("Format") THEN [st EXCEPT !.sformat = body]
                ELSE IF type = B("Style") THEN
                    IF st.sformat = <<>> THEN [st EXCEPT !.err = "SSAError"]
                    ELSE LET m == MakeStyle(st.sformat, body)
                         IN  IF m.err # "" THEN [st EXCEPT !.err = m.err] ELSE [st EXCEPT !.styles = Append(@, m.style)]
                ELSE st
          [] st.part = "events" ->
                IF type = B("Format") THEN [st EXCEPT !.eformat = Trimmed(Split(body, {44}))]
                ELSE IF type = B("Dialogue") THEN Dialogue(st, body)
                ELSE st

RECURSIVE SSAReadLines(_, _, _)
SSAReadLines(st, ls, k) == IF k > Len(ls) THEN st ELSE SSAReadLines(SSAReadLine(st, ls[k]), ls, k + 1)

\* fractions of the screen are in units of 1/(20 resolution)
SSAResult(st) == IF st.err # "" THEN [err |-> st.err] ELSE [err |-> "", subs |-> st.subs]
SSARead(bytes) == SSAResult(SSAReadLines(SSAStart, Lines(bytes), 1))
================================================================================
