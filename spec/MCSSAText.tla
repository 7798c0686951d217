------------------------------ MODULE MCSSAText ------------------------------
(* Every SSA event text of up to Depth chunks, under styles with every          *)
(* alignment and a choice of margins: the machine against declarative accounts  *)
(* of each character's style and position.                                      *)
EXTENDS SSA, Json

CONSTANTS Depth, Emitting, Alphabet, Alignments, Margins

RX == 640
RY == 480
Size == 20

C(k, x, b) == [k |-> k, x |-> x, b |-> b]

Sym == <<
    C("text", 0, B("ab")),
    C("bold", 1, B("{\\b1}")),
    C("bold", 0, B("{\\b0}")),
    C("italic", 1, B("{\\i1}")),
    C("italic", 0, B("{\\i}")),
    C("under", 1, B("{x\\u1}")),
    C("under", 0, B("{\\u0}")),
    C("break", 0, B("\\N")),
    C("none", 0, B("{\\fscx50\\clip(1,2,3,4)}")),
    C("colour", <<255, 16, 0>>, B("{\\c&H0010FF&}")),
    C("colour", <<1, 2, 3>>, B("{\\c}")),
    C("size", 600, B("{\\fs30}")),
    C("event", 0, B("%")),
    C("text", 0, B(", c")),
    C("none", 0, B("{}\\h")),
    \* positions
    C("align", <<Left, Top>>, B("{\\an7}")),
    C("align", <<Centre, Middle>>, B("{\\an5}")),
    C("align", <<Right, Bottom>>, B("{\\an3}")),
    C("pos", <<200, 300>>, B("{\\pos(10,15)}")),
    C("break", 0, B("\\n")),
    C("align", <<Centre, Top>>, B("{\\an8}")) >>

Chunks == CASE Alphabet = "style" -> 1..15
            [] Alphabet = "position" -> {1, 8, 12, 16, 17, 18, 19}
            [] Alphabet = "all" -> 1..21

\* al: the style's alignment; m: <<style's MarginV, L, R, the event's MarginV, L, R>>
VARIABLES inp, al, m
vars == <<inp, al, m>>

MarginChoices == << <<0, 0, 0, 0, 0, 0>>, <<10, 20, 30, 0, 0, 0>>, <<10, 20, 30, 7, 8, 9>> >>

Init == inp = <<>> /\ al \in Alignments /\ m \in { MarginChoices[i] : i \in Margins }
Next == /\ Len(inp) < Depth
        /\ \E c \in Chunks : inp' = Append(inp, c)
        /\ al' = al /\ m' = m
Spec == Init /\ [][Next]_vars

D(n) == DecOf(n)
Header ==
    B("[Script Info]") \o <<LF>> \o B("PlayResX: ") \o D(RX) \o <<LF>> \o B("PlayResY: ") \o D(RY) \o <<LF>>
    \o B("[V4+ Styles]") \o <<LF>> \o B("Format: Name, Fontsize, PrimaryColour, Alignment, MarginV, MarginL, MarginR") \o <<LF>>
    \o B("Style: S,") \o D(Size) \o B(",&H030201,") \o D(al) \o B(",") \o D(m[1]) \o B(",") \o D(m[2]) \o B(",") \o D(m[3]) \o <<LF>>
    \o B("[Events]") \o <<LF>> \o B("Format: Start,End,Style,MarginV,MarginL,MarginR,Text") \o <<LF>>

EventHead == B("Dialogue: 0:00:01.00,0:00:02.00,S,") \o D(m[4]) \o B(",") \o D(m[5]) \o B(",") \o D(m[6]) \o B(",")

RECURSIVE InputFrom(_)
InputFrom(j) == IF j > Len(inp) THEN <<LF>>
                ELSE (IF Sym[inp[j]].k = "event" THEN <<LF>> \o EventHead ELSE Sym[inp[j]].b) \o InputFrom(j + 1)
\* blanks at the ends of a text do not count, so there's something else there
Input == Header \o EventHead \o InputFrom(1)
Out == SSARead(Input)

(* ---- the declarative account ---- *)

K(j) == Sym[inp[j]].k
X(j) == Sym[inp[j]].x
Last(S) == CHOOSE i \in S : \A x \in S : x <= i

Past(j) == { i \in 1..(j - 1) : \A x \in i..(j - 1) : K(x) # "event" }
Here(j) == Past(j) \cup { i \in j..Len(inp) : \A x \in j..i : K(x) # "event" }
Latest(j, kk, d) == LET S == { i \in Past(j) : K(i) = kk } IN IF S = {} THEN d ELSE X(Last(S))

Or(x, y) == IF x # 0 THEN x ELSE y
ML == Or(m[5], m[2])
MR == Or(m[6], m[3])
MV == Or(m[4], m[1])
StyleH == IF al \in {1, 4, 7} THEN Left ELSE IF al \in {2, 5, 8} THEN Centre ELSE Right
StyleV == IF al <= 3 THEN Bottom ELSE IF al <= 6 THEN Middle ELSE Top

Height == 24 * Size        \* 1.2 font sizes

\* the alignment and position before chunk j
Placing(j) == { i \in Past(j) : K(i) \in {"align", "pos"} }
RefH(j) == IF Placing(j) = {} THEN StyleH ELSE IF K(Last(Placing(j))) = "pos" THEN Left ELSE X(Last(Placing(j)))[1]
RefV(j) == IF Placing(j) = {} THEN StyleV ELSE IF K(Last(Placing(j))) = "pos" THEN Top ELSE X(Last(Placing(j)))[2]

MarginH(ref) == CASE ref = Left -> 20 * ML [] ref = Right -> 20 * MR [] ref = Centre -> 10 * (ML - MR)
OffsetH(j) == IF Placing(j) # {} /\ K(Last(Placing(j))) = "pos" THEN X(Last(Placing(j)))[1] ELSE MarginH(RefH(j))

\* breaks move text down; measured up from the bottom that is downwards
Poses(j) == { i \in Past(j) : K(i) = "pos" }
Moves(j) == { i \in Past(j) : K(i) = "break" /\ \A p \in Poses(j) : p < i }
Down(j) == Cardinality({ i \in Moves(j) : RefV(i) # Bottom }) - Cardinality({ i \in Moves(j) : RefV(i) = Bottom })
StartV(j) == IF Poses(j) = {} THEN 0 ELSE X(Last(Poses(j)))[2]
BreaksHere(j) == Cardinality({ i \in Here(j) : K(i) = "break" })

\* the margin that counts for text that isn't vertically centred, whatever the style is
BaseMargin == 20 * MV
OffsetV(j) ==
    StartV(j) + Down(j) * Height
      + CASE RefV(j) = Top -> BaseMargin
          [] RefV(j) = Bottom -> BaseMargin + BreaksHere(j) * Height
          [] RefV(j) = Middle -> -((BreaksHere(j) + 1) * Height) \div 2

CharAt(j, n) == [ch |-> Sym[inp[j]].b[n], s |-> <<Latest(j, "bold", 0), Latest(j, "italic", 0), Latest(j, "under", 0)>>,
                 c |-> Latest(j, "colour", <<1, 2, 3>>), fs |-> <<"pr", Latest(j, "size", 20 * Size)>>,
                 h |-> <<RefH(j), OffsetH(j)>>, v |-> <<RefV(j), <<>>, <<>>, <<OffsetV(j)>>>>]

RECURSIVE WantFrom(_)
WantFrom(j) == IF j > Len(inp) THEN <<>>
               ELSE (IF K(j) = "text" THEN [n \in 1..Len(Sym[inp[j]].b) |-> CharAt(j, n)] ELSE <<>>) \o WantFrom(j + 1)
RECURSIVE GotFrom(_)
GotFrom(q) == IF q = <<>> THEN <<>>
              ELSE LET r == Head(q)
                   IN  [n \in 1..Len(r.t) |-> [ch |-> r.t[n], s |-> r.s, c |-> r.c, fs |-> r.fs, h |-> r.h, v |-> r.v]] \o GotFrom(Tail(q))

\* C09 and C10
CharView == LET o == Out IN /\ o.err = ""
                            /\ GotFrom(o.subs) = WantFrom(1)
                            /\ \A i \in 1..Len(o.subs) : o.subs[i].t # <<>>

\* the last line of bottom-aligned text sits on the margin
LastLineOnMargin ==
    LET o == Out.subs
    IN  o # <<>> /\ Placing(Len(inp) + 1) = {} /\ StyleV = Bottom /\ ~(\E j \in 1..Len(inp) : K(j) = "event")
        /\ inp[Len(inp)] = 1 => o[Len(o)].v[4] = <<BaseMargin>>

Emit == Emitting => PrintT(ToJson([in |-> Input, x |-> Out]))
==============================================================================
