-------------------------------- MODULE MCTags --------------------------------
(* Every short override tag, and every tag one edit away from a known one: the  *)
(* known ones change exactly their own attribute of what follows, and anything  *)
(* else changes nothing.                                                        *)
EXTENDS SSA, Json

CONSTANTS MaxLen, Edits, Emitting

RX == 640
RY == 480

\* the characters that tags are made of, and some that they aren't
Alphabet == TLCEval({ B("ibucfasnpo01578&H(),. -")[i] : i \in 1..23 } \cup {120, 73})

Known == TLCEval({ B("i1"), B("i0"), B("i"), B("b1"), B("b0"), B("u1"), B("u0"), B("an7"), B("an5"), B("an3"), B("fs30"), B("fs7.5"), B("c"), B("c&H0010FF&"), B("pos(10,15)") })

\* tag: what's after the backslash; on: whether the text before has everything set;
\* edits: how many edits have been made to a known tag, or -1 if it's being built from nothing
VARIABLES tag, on, edits
vars == <<tag, on, edits>>

Init == on \in {0, 1} /\ ((tag = <<>> /\ edits = -1) \/ (tag \in Known /\ edits = 0))

Put(s, i, x) == SubSeq(s, 1, i - 1) \o x \o From(s, i)
Swap(s, i, x) == SubSeq(s, 1, i - 1) \o x \o From(s, i + 1)

Next == /\ on' = on
        /\ \/ edits = -1 /\ Len(tag) < MaxLen /\ edits' = edits /\ \E x \in Alphabet : tag' = Append(tag, x)
           \/ edits \in 0..(Edits - 1) /\ edits' = edits + 1
              /\ \/ \E i \in 1..(Len(tag) + 1), x \in Alphabet : tag' = Put(tag, i, <<x>>)
                 \/ \E i \in 1..Len(tag) : (\E x \in Alphabet : tag' = Swap(tag, i, <<x>>)) \/ tag' = Swap(tag, i, <<>>)
Spec == Init /\ [][Next]_vars

\* numbers that can be said in twentieths
Round(s) == LET p == Find(s, 1, {46})
                d == IF p = 0 THEN <<>> ELSE SubSeq(s, p + 1, DigitsEnd(s, p + 1) - 1)
            IN  Len(d) < 2 \/ (Len(d) = 2 /\ d[2] \in {48, 53})

\* a colour's digits don't start with something that only a number could start with
Specified ==
    /\ StartsWith(tag, B("fs")) \/ StartsWith(tag, B("pos")) => \A i \in 1..Len(tag) : Round(From(tag, i))
    /\ StartsWith(tag, B("c&H")) =>
        LET i == LTrimTo(tag, 2, {38, 72}) IN i > Len(tag) \/ (tag[i] \notin {32, 43, 45} /\ ~(tag[i] = 48 /\ i < Len(tag) /\ tag[i + 1] = 120))

Header ==
    B("[Script Info]") \o <<LF>> \o B("PlayResX: 640") \o <<LF>> \o B("PlayResY: 480") \o <<LF>>
    \o B("[V4+ Styles]") \o <<LF>> \o B("Format: Name, Fontsize, PrimaryColour, Alignment, MarginV, MarginL, MarginR") \o <<LF>>
    \o B("Style: S,20,&H030201,8,10,20,30") \o <<LF>>
    \o B("[Events]") \o <<LF>> \o B("Format: Start,End,Style,Text") \o <<LF>>
    \o B("Dialogue: 0:00:01.00,0:00:02.00,S,")

Input == Header \o (IF on = 1 THEN B("{\\i1\\b1\\u1\\c&H040506&\\fs40\\an6}") ELSE <<>>) \o B("a{\\") \o tag \o B("}b") \o <<LF>>
Out == TLCEval(SSARead(Input))

(* ---- the declarative account ---- *)

DigitsOnly(s) == s # <<>> /\ \A i \in 1..Len(s) : IsDigit(s[i])
Comma == { i \in 1..Len(tag) : tag[i] \in {40, 44} }

Sets(s, was) == IF tag = Append(s, 49) THEN 1 ELSE IF tag = Append(s, 48) THEN 0 ELSE was
IsAlign == \E d \in 49..57 : tag = B("an") \o <<d>>
Digit == tag[3] - 48
IsPos == StartsWith(tag, B("pos"))
IsColour == StartsWith(tag, B("c&"))
IsSize == StartsWith(tag, B("fs")) /\ Len(tag) > 2 /\ IsDigit(tag[3])

Bad == (IsPos /\ Cardinality(Comma) # 2) \/ (IsColour /\ ~StartsWith(tag, B("c&H")))

\* the last six of the colour's hex digits, filled up with zeros in front, backwards
Hex == LET i == LTrimTo(tag, 2, {38, 72}) IN SubSeq(tag, i, HexEnd(tag, i) - 1)
HexAt(k) == LET h == Hex IN IF k > Len(h) THEN 0 ELSE HexVal(h[Len(h) + 1 - k])
Byte(k) == 16 * HexAt(k + 1) + HexAt(k)

Before == Out.subs[1]
Agrees ==
    IF Bad THEN Out.err = "SSAError"
    ELSE /\ Out.err = ""
         /\ LET o == Out.subs
                b == o[1]
                a == o[2]
                c == Comma
            IN  /\ Len(o) = 2 /\ b.t = B("a") /\ a.t = B("b")
                /\ b.s = <<on, on, on>>
                /\ a.s = <<Sets(B("b"), on), IF tag = B("i") THEN 0 ELSE Sets(B("i"), on), Sets(B("u"), on)>>
                /\ a.c = (IF tag = B("c") THEN <<1, 2, 3>> ELSE IF IsColour THEN <<Byte(1), Byte(3), Byte(5)>> ELSE b.c)
                /\ a.fs = (IF ~IsSize THEN b.fs
                           ELSE IF DigitsOnly(From(tag, 3)) THEN <<"pr", 20 * LeadingInt(From(tag, 3))>>
                           ELSE <<"pr", LeadingTwentieths(From(tag, 3))>>)
                /\ (~IsAlign /\ ~IsPos) => a.h = b.h /\ a.v = b.v
                /\ IsAlign => /\ a.h = <<(Digit - 1) % 3, CASE Digit % 3 = 1 -> 400 [] Digit % 3 = 2 -> -100 [] OTHER -> 600>>
                              /\ a.v[1] = 2 - ((Digit - 1) \div 3)
                /\ IsPos => LET i == CHOOSE x \in c : \A y \in c : x <= y
                                j == CHOOSE x \in c : \A y \in c : x >= y
                            IN  /\ a.h = <<Left, LeadingTwentieths(SubSeq(tag, i + 1, j - 1))>>
                                /\ a.v = <<Top, <<>>, <<>>, <<LeadingTwentieths(From(tag, j + 1)) + 200>>>>
                \* what the tag doesn't mention
                /\ [a EXCEPT !.t = b.t, !.s = b.s, !.c = b.c, !.fs = b.fs, !.h = b.h, !.v = b.v] = b

C09 == Specified => Agrees

Emit == (Emitting /\ Specified) => PrintT(ToJson([in |-> Input, x |-> Out]))
==============================================================================
