--------------------------- MODULE MCSubRipMarkup ---------------------------
(* Every text of up to Depth chunks (words, tags, row and cue breaks) in a     *)
(* SubRip file.  The scanner's machine is checked against a declarative        *)
(* account of the style of each character, and each file is printed with its   *)
(* outcome for replay into the real reader.                                    *)
EXTENDS SubRip, Json

CONSTANTS Depth, Emitting, Alphabet      \* Alphabet: which set of chunks

\* k: what the chunk is; x: its parameter; b: its bytes
Sym == <<
    [k |-> "text", b |-> B("ab"), x |-> 0],
    [k |-> "bold", b |-> B("<b>"), x |-> 1],
    [k |-> "bold", b |-> B("{/B}"), x |-> 0],
    [k |-> "italic", b |-> B("{i}"), x |-> 1],
    [k |-> "italic", b |-> B("</I>"), x |-> 0],
    [k |-> "under", b |-> B("<U>"), x |-> 1],
    [k |-> "under", b |-> B("{/u}"), x |-> 0],
    [k |-> "font", b |-> B("<font color=\"#ff0001\">"), x |-> <<255, 0, 1>>],
    [k |-> "close", b |-> B("</font>"), x |-> 0],
    [k |-> "row", b |-> <<LF>>, x |-> 0],
    [k |-> "text", b |-> B("<x>"), x |-> 0],
    [k |-> "align", b |-> B("{\\an7}"), x |-> <<Left, Top>>],
    [k |-> "none", b |-> RTLEmbedding, x |-> 0],
    [k |-> "row", b |-> LineSeparator, x |-> 0],
    [k |-> "cue", b |-> B("\\"), x |-> 0],
    \* a second set
    [k |-> "font", b |-> B("<FONT size=5 COLOR='#00fF2080' face=\"x\">"), x |-> <<0, 255, 32>>],
    [k |-> "font", b |-> B("<font Color=\"RGBa( 1, 2 ,3,255)\">"), x |-> <<1, 2, 3>>],
    [k |-> "close", b |-> B("</FonT>"), x |-> 0],
    [k |-> "colour", b |-> B("{\\c&H0000ff&}"), x |-> <<255, 0, 0>>],
    [k |-> "colour", b |-> B("{\\c}"), x |-> <<255, 255, 255>>],
    [k |-> "bold", b |-> B("{\\b1}"), x |-> 1],
    [k |-> "bold", b |-> B("</b>"), x |-> 0],
    [k |-> "italic", b |-> B("<I>"), x |-> 1],
    [k |-> "italic", b |-> B("{\\i}"), x |-> 0],
    [k |-> "under", b |-> B("{\\u1}"), x |-> 1],
    [k |-> "under", b |-> B("{\\u0}"), x |-> 0],
    [k |-> "align", b |-> B("{\\an2}"), x |-> <<Centre, Bottom>>],
    [k |-> "none", b |-> B("{\\fad(1,2)}"), x |-> 0],
    [k |-> "text", b |-> B("{"), x |-> 0],
    [k |-> "text", b |-> B("</i"), x |-> 0] >>

Chunks == CASE Alphabet = "main" -> 1..15
            [] Alphabet = "fonts" -> {1, 8, 9, 10, 15, 16}
            [] Alphabet = "second" -> {1, 9, 15} \cup 16..30

VARIABLES inp, st, cur
vars == <<inp, st, cur>>

Timing(n) == B("00:00:01,000 --> 00:00:02,") \o Dec(n, 3)
NewCue(s, n) == ReadLine(ReadLine(ReadLine(s, <<>>), B("1")), Timing(n))
EndLine(s, l) == IF l = <<>> THEN s ELSE ReadLine(s, l)

Cues(q) == Cardinality({ j \in 1..Len(q) : Sym[q[j]].k = "cue" })

Init == inp = <<>> /\ st = NewCue(Start, 0) /\ cur = <<>>

Add(c) ==
    /\ inp' = Append(inp, c)
    /\ CASE c = 10 -> cur # <<>> /\ st' = ReadLine(st, cur) /\ cur' = <<>>
         [] Sym[c].k = "cue" -> st' = NewCue(EndLine(st, cur), Cues(inp')) /\ cur' = <<>>
         [] OTHER -> st' = st /\ cur' = cur \o Sym[c].b

Next == Len(inp) < Depth /\ \E c \in Chunks : Add(c)
Spec == Init /\ [][Next]_vars

Final == EndLine(st, cur)

(* ---- the declarative account ---- *)

K(j) == Sym[inp[j]].k
X(j) == Sym[inp[j]].x

\* the chunks before j in its cue
Past(j) == { i \in 1..(j - 1) : \A x \in i..(j - 1) : K(x) # "cue" }
Last(S) == CHOOSE i \in S : \A x \in S : x <= i

\* what the last chunk of kind kk before j says, or else d
Latest(j, kk, d) == LET S == { i \in Past(j) : K(i) = kk } IN IF S = {} THEN d ELSE X(Last(S))

\* font tag i is still open just before j
Opens(a, b) == Cardinality({ x \in a..b : K(x) = "font" })
Closes(a, b) == Cardinality({ x \in a..b : K(x) = "close" })
IsOpen(i, j) == \A e \in i..(j - 1) : Closes(i + 1, e) <= Opens(i + 1, e)
OpenFonts(j) == { i \in Past(j) : K(i) = "font" /\ IsOpen(i, j) }
FontAt(j) == IF OpenFonts(j) = {} THEN White ELSE X(Last(OpenFonts(j)))

\* the colour of what comes at j
ColourAt(j) == LET S == { i \in Past(j) : K(i) \in {"font", "close", "colour"} }
               IN  IF S = {} THEN White
                   ELSE IF K(Last(S)) = "colour" THEN X(Last(S)) ELSE FontAt(Last(S) + 1)

RowAt(j) == Cardinality({ i \in Past(j) : K(i) = "row" })

CharAt(j, n) == [ch |-> Sym[inp[j]].b[n], s |-> <<Latest(j, "bold", 0), Latest(j, "italic", 0), Latest(j, "under", 0)>>,
                 c |-> ColourAt(j), h |-> <<Latest(j, "align", <<Centre, TopOfSubtitle>>)[1], 0>>,
                 v |-> <<Latest(j, "align", <<Centre, TopOfSubtitle>>)[2], <<RowAt(j)>>, <<>>, <<>>>>,
                 o |-> MsTime(0, 0, 2, Cues(SubSeq(inp, 1, j - 1)))]

RECURSIVE WantFrom(_)
WantFrom(j) == IF j > Len(inp) THEN <<>>
               ELSE (IF K(j) = "text" THEN [n \in 1..Len(Sym[inp[j]].b) |-> CharAt(j, n)] ELSE <<>>) \o WantFrom(j + 1)

RECURSIVE GotFrom(_)
GotFrom(q) == IF q = <<>> THEN <<>>
              ELSE LET r == Head(q)
                   IN  [n \in 1..Len(r.t) |-> [ch |-> r.t[n], s |-> r.s, c |-> r.c, h |-> r.h, v |-> r.v, o |-> r.o]] \o GotFrom(Tail(q))

\* C05: every character, in order, with the style of the tags before it
CharView == ~Failed(Final) /\ GotFrom(Final.subs) = WantFrom(1)

NoEmptyText == \A i \in 1..Len(Final.subs) : Final.subs[i].t # <<>>

\* a font tag still open is one on the reader's stack
StackIsOpenFonts == LET n == Len(inp) + 1 IN cur = <<>> => Len(st.stack) = 1 + Cardinality(OpenFonts(n))

RECURSIVE InputFrom(_)
InputFrom(j) ==
    IF j > Len(inp) THEN <<LF>>
    ELSE (IF K(j) = "cue" THEN (IF j = 1 \/ inp[j - 1] \in {10, 15} THEN <<>> ELSE <<LF>>)
                               \o <<LF>> \o B("1") \o <<LF>> \o Timing(Cues(SubSeq(inp, 1, j))) \o <<LF>>
          ELSE Sym[inp[j]].b) \o InputFrom(j + 1)
Input == B("1") \o <<LF>> \o Timing(0) \o <<LF>> \o InputFrom(1)

Emit == Emitting => PrintT(ToJson([in |-> Input, x |-> Result(Final)]))
=============================================================================
