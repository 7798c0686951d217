------------------------------ MODULE MCSTLText ------------------------------
(* Every text STL file made of up to Depth chunks: text, toggles, row            *)
(* separators and, between subtitles, lines of other kinds.                      *)
EXTENDS STLText, Json

CONSTANTS Depth, Emitting, Narrow

C(kk, x, b) == [k |-> kk, x |-> x, b |-> b]

Sym == <<
    C("text", 0, B("a")),
    C("row", 0, B("|")),
    C("toggle", 2, B("^I")),
    C("toggle", 1, B("^B")),
    C("line", "new", <<>>),                                                  \* a new subtitle
    C("line", "keep", B("00:00:05:01 , 00:00:0x:02 , no^I")),                \* not understood
    C("text", 0, B(",")),
    C("toggle", 3, B("^U")),
    C("toggle", 0, B("^q")),
    C("space", 0, B(" ")),
    C("line", "keep", B("  // $Bold = True")),
    C("line", "keep", B("00:00:05:01,,")),
    C("line", "keep", B("$FontSize = big")),
    C("line", "keep", B("$Bold = True = True")),
    C("line", "size", B("$FontSize=42")),
    C("line", "font", B("$FontName = Times Roman") \o <<CR>>),
    C("line", "italic", B("$Italic = True")),
    C("line", "plain", B(" $Italic = no")) >>

Shapes == (IF Narrow THEN 1..6 ELSE 1..Len(Sym))

VARIABLES inp
vars == <<inp>>
Init == inp = <<>>
Next == Len(inp) < Depth /\ \E c \in Shapes : inp' = Append(inp, c)
Spec == Init /\ [][Next]_vars

K(j) == Sym[inp[j]].k
X(j) == Sym[inp[j]].x

(* ---- the file ---- *)

LinesBefore(j) == Cardinality({ i \in 1..(j - 1) : K(i) = "line" })
Timing(n) == CASE n % 3 = 0 -> B("00:00:01:") \o DecOf(n) \o B(",00:00:02:5,")
               [] n % 3 = 1 -> B("00:00:01:") \o DecOf(n) \o B(" , 00:00:02:05 ,")
               [] n % 3 = 2 -> B("  0:0:1:") \o DecOf(n) \o B(",   00:00:02:5,")

RECURSIVE InputFrom(_)
InputFrom(j) ==
    IF j > Len(inp) THEN <<>>       \* no newline at the end
    ELSE (IF K(j) = "line" THEN <<LF>> \o Sym[inp[j]].b \o <<LF>> \o Timing(LinesBefore(j) + 1) ELSE Sym[inp[j]].b) \o InputFrom(j + 1)
Input == Timing(0) \o InputFrom(1)

Out == STLTRead(Input)

(* ---- what each of its characters should be ---- *)

\* is the blank at j at the end of its line?
Dangling(j) == \A i \in j..Len(inp) : K(i) = "space" \/ \E x \in j..i : K(x) = "line"
IsChar(j) == K(j) = "text" \/ (K(j) = "space" /\ ~Dangling(j))
SameLine(j) == { i \in 1..(j - 1) : \A x \in i..(j - 1) : K(x) # "line" }

Last(S) == CHOOSE x \in S : \A y \in S : y <= x
\* the last line that set what
LastSet(j, what) == LET S == { i \in 1..(j - 1) : K(i) = "line" /\ X(i) \in what } IN IF S = {} THEN 0 ELSE Last(S)
\* toggle n since line j
Toggles(i, j, n) == Cardinality({ x \in (i + 1)..(j - 1) : K(x) = "toggle" /\ X(x) = n }) % 2
Italic(j) == LET s == LastSet(j, {"italic", "plain"})
                 was == IF s # 0 /\ X(s) = "italic" THEN 1 ELSE 0
             IN  (was + Toggles(s, j, 2)) % 2

CharAt(j) == [ch |-> Sym[inp[j]].b[1], s |-> <<Toggles(0, j, 1), Italic(j), Toggles(0, j, 3)>>,
              row |-> Cardinality({ i \in SameLine(j) : K(i) = "row" }),
              f |-> <<1, LinesBefore(j), 0, 0>>, o |-> <<2, 5, 0, 0>>,
              fn |-> IF LastSet(j, {"font"}) = 0 THEN <<>> ELSE <<B("Times Roman")>>,
              fs |-> IF LastSet(j, {"size"}) = 0 THEN NoSize ELSE <<"pt", 42>>]

RECURSIVE WantFrom(_)
WantFrom(j) == IF j > Len(inp) THEN <<>> ELSE (IF IsChar(j) THEN <<CharAt(j)>> ELSE <<>>) \o WantFrom(j + 1)

CharsOf(r) == [n \in 1..Len(r.t) |-> [ch |-> r.t[n], s |-> r.s, row |-> r.v[2][1], f |-> r.f, o |-> r.o, fn |-> r.fn, fs |-> r.fs]]
RECURSIVE GotFrom(_)
GotFrom(q) == IF q = <<>> THEN <<>> ELSE CharsOf(Head(q)) \o GotFrom(Tail(q))

\* C11
CharView == GotFrom(Out.subs) = WantFrom(1)
NoEmptyText == \A i \in 1..Len(Out.subs) : Out.subs[i].t # <<>>

Emit == Emitting => PrintT(ToJson([in |-> Input, x |-> Out]))
==============================================================================
