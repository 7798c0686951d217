----------------------------- MODULE MCSSALines -----------------------------
(* Every SSA file made of one of a few beginnings and up to Depth further lines *)
(* from a small alphabet: sections, formats, styles and events in any order.    *)
EXTENDS SSA, Json

CONSTANTS Depth, Emitting

F1 == << "Name", "Fontname", "Fontsize", "Bold", "PrimaryColour" >>
F2 == << "PrimaryColour", "Bold", "Fontsize", "Fontname", "Name" >>
G1 == << "Start", "End", "Style", "Text" >>
G2 == << "End", "Start", "Style", "Text" >>
G3 == << "Text", "Style", "End", "Start" >>        \* the text before all that it depends on

\* (not recursive, so that TLC works out Sym once only)
Joined(fs, sep) ==
    LET j4 == B(fs[1]) \o B(sep) \o B(fs[2]) \o B(sep) \o B(fs[3]) \o B(sep) \o B(fs[4])
    IN  IF Len(fs) = 4 THEN j4 ELSE j4 \o B(sep) \o B(fs[5])

StyleLine(lead, fs, sep) == [k |-> "style", fs |-> fs, b |-> B(lead) \o Joined(fs, sep)]
FormatLine(fs, sep) == [k |-> "format", fs |-> fs, b |-> B("Format:") \o Joined(fs, sep)]
DialogueLine(lead, fs, sep) == [k |-> "dialogue", fs |-> fs, b |-> B(lead) \o Joined(fs, sep)]

Sym == <<
    [k |-> "section", s |-> "styles", b |-> B("[V4+ Styles]")],
    [k |-> "section", s |-> "events", b |-> B(" [Events] ") \o <<CR>>],
    [k |-> "section", s |-> "other", b |-> B("[Fonts]")],
    FormatLine(F1, ","),
    FormatLine(F2, " , "),
    StyleLine("Style: ", <<"Default", "Arial", "20", "-1", "&H0000FF">>, ","),
    StyleLine("Style:", <<"A", "Times", "30", "0", "&H00FF0000">>, ", "),
    StyleLine("Style: ", <<"A", "Verdana", "40", "-1", "255">>, ","),
    FormatLine(G1, ","),
    FormatLine(G2, ", "),
    DialogueLine("Dialogue: ", <<"0:00:01.00", "0:00:02.00", "A", "Hello, w: x">>, ","),
    DialogueLine("Dialogue:", <<"0:01:01.50", "1:00:02.25", "**A", "y">>, " ,"),
    DialogueLine("Dialogue: ", <<"0:00:03.00", "0:00:04.00", "Missing", ";z">>, ","),
    FormatLine(G3, ","),
    DialogueLine("Dialogue: ", <<"v", "A", "0:00:04.00", "0:00:03.00">>, ","),
    [k |-> "noise", b |-> B("Comment: 0:00:01.00,0:00:02.00,A,No")],
    [k |-> "noise", b |-> B("Foo: bar")],
    [k |-> "noise", b |-> B(";x")],
    [k |-> "section", s |-> "info", b |-> B("[Script Info]")] >>

Prefixes == { <<>>, <<1, 4, 6>>, <<1, 4, 6, 7, 2, 9>>, <<2, 9>> }

\* sec[j] and fmt[j] remember the section that line j is in and the format line in force there
VARIABLES pre, inp, st, sec, fmt
vars == <<pre, inp, st, sec, fmt>>

RECURSIVE Feed(_, _)
Feed(s, q) == IF q = <<>> THEN s ELSE Feed(SSAReadLine(s, Sym[Head(q)].b), Tail(q))

K(j) == Sym[inp[j]].k
Fs(j) == Sym[inp[j]].fs
Last(S) == CHOOSE x \in S : \A y \in S : y <= x
LastOr0(S) == IF S = {} THEN 0 ELSE Last(S)

SectionAt(q, j) == LET n == LastOr0({ i \in 1..(j - 1) : Sym[q[i]].k = "section" }) IN IF n = 0 THEN "info" ELSE Sym[q[n]].s
FormatIn(q, j) == LET s == SectionAt(q, j) IN LastOr0({ i \in 1..(j - 1) : Sym[q[i]].k = "format" /\ SectionAt(q, i) = s })

Init == \E p \in Prefixes :
            /\ pre = Len(p) /\ inp = p /\ st = Feed(SSAStart, p)
            /\ sec = [j \in 1..Len(p) |-> SectionAt(p, j)] /\ fmt = [j \in 1..Len(p) |-> FormatIn(p, j)]
Next == /\ Len(inp) < pre + Depth /\ st.err = ""
        /\ \E c \in 1..Len(Sym) : inp' = Append(inp, c) /\ st' = SSAReadLine(st, Sym[c].b) /\ pre' = pre
        /\ sec' = Append(sec, SectionAt(inp', Len(inp'))) /\ fmt' = Append(fmt, FormatIn(inp', Len(inp')))
Spec == Init /\ [][Next]_vars

(* ---- the declarative account ---- *)

\* column key of line j under the format on line f
Has(f, key) == \E i \in 1..Len(Fs(f)) : Fs(f)[i] = key
Column(j, f, key) == Fs(j)[CHOOSE i \in 1..Len(Fs(f)) : Fs(f)[i] = key]

IsStyle(j) == K(j) = "style" /\ sec[j] = "styles"
IsEvent(j) == K(j) = "dialogue" /\ sec[j] = "events"

\* a format of the other kind makes the columns mean something else, or not fit: left to the machine
Odd == \E j \in 1..Len(inp) :
          \/ (K(j) = "format" /\ sec[j] = "styles" /\ ~Has(j, "Name"))
          \/ (K(j) = "format" /\ sec[j] = "events" /\ ~Has(j, "Text"))
          \/ (IsEvent(j) /\ fmt[j] # 0 /\ (Fs(fmt[j])[1] = "Text") # (Fs(j)[1] = "v"))
Faults == { j \in 1..Len(inp) : (IsStyle(j) /\ fmt[j] = 0) \/ (IsEvent(j) /\ fmt[j] = 0) }

StyleNamed(j, name) == LastOr0({ i \in 1..(j - 1) : IsStyle(i) /\ Column(i, fmt[i], "Name") = name })

ColourValue(s) == CASE s = "&H0000FF" -> <<255, 0, 0>> [] s = "&H00FF0000" -> <<0, 0, 255>> [] s = "255" -> <<255, 0, 0>> [] OTHER -> <<0, 0, 0>>
SizeValue(s) == CASE s = "20" -> 20 [] s = "30" -> 30 [] s = "40" -> 40
TimeValue(s) == CASE s = "0:00:01.00" -> <<1, 0, 1000, 1>> [] s = "0:00:02.00" -> <<2, 0, 1000, 1>> [] s = "0:00:03.00" -> <<3, 0, 1000, 1>>
                  [] s = "0:00:04.00" -> <<4, 0, 1000, 1>> [] s = "0:01:01.50" -> <<61, 500, 1000, 1>> [] s = "1:00:02.25" -> <<3602, 250, 1000, 1>>

Want(j) ==
    LET f == fmt[j]
        name == Column(j, f, "Style")
        own == StyleNamed(j, IF name = "**A" THEN "A" ELSE name)
        s == IF own # 0 THEN own ELSE StyleNamed(j, "Default")
        g == IF s = 0 THEN 0 ELSE fmt[s]
    IN  [f |-> TimeValue(Column(j, f, "Start")), o |-> TimeValue(Column(j, f, "End")), t |-> B(Column(j, f, "Text")),
         fn |-> IF s = 0 THEN <<>> ELSE <<B(Column(s, g, "Fontname"))>>,
         fs |-> IF s = 0 THEN <<"pr", 1440>> ELSE <<"pr", 20 * SizeValue(Column(s, g, "Fontsize"))>>,
         s |-> IF s = 0 THEN <<0, 0, 0>> ELSE <<IF Column(s, g, "Bold") = "-1" THEN 1 ELSE 0, 0, 0>>,
         c |-> IF s = 0 THEN White ELSE ColourValue(Column(s, g, "PrimaryColour"))]

RECURSIVE WantFrom(_)
WantFrom(j) == IF j > Len(inp) THEN <<>> ELSE (IF IsEvent(j) THEN <<Want(j)>> ELSE <<>>) \o WantFrom(j + 1)

View(r) == [f |-> r.f, o |-> r.o, t |-> r.t, fn |-> r.fn, fs |-> r.fs, s |-> r.s, c |-> r.c]

\* C08
EventsResolve == ~Odd => (st.err # "") = (Faults # {})
                 /\ (Faults = {} => [i \in 1..Len(st.subs) |-> View(st.subs[i])] = WantFrom(1))

RECURSIVE InputFrom(_)
InputFrom(j) == IF j > Len(inp) THEN <<>> ELSE Sym[inp[j]].b \o <<LF>> \o InputFrom(j + 1)
Emit == Emitting => PrintT(ToJson([in |-> InputFrom(1), x |-> SSAResult(st)]))
=============================================================================
