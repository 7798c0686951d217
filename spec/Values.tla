------------------------------- MODULE Values -------------------------------
(* Positions, sizes, colours and the other small values that subtitles are made  *)
(* of: what they mean, as exact fractions <<n, d>> (d > 0).                      *)
EXTENDS Raw

\* comparing fractions
Less(p, q) == p[1] * q[2] < q[1] * p[2]
Same(p, q) == p[1] * q[2] = q[1] * p[2]

---------------------------------------------------------------------------
(* Vertical positions; V: units per screen *)
HasRef(v) == v[1] >= 0
HasLine(v) == v[2] # <<>>
HasLines(v) == v[3] # <<>>
HasProp(v) == v[4] # <<>>

Offset(v, V) == IF HasProp(v) THEN <<v[4][1], V>> ELSE <<v[2][1], v[3][1]>>
\* how far from the top of the screen; nothing if it cannot be said
Fraction(v, V) ==
    IF ~HasRef(v) \/ (~HasProp(v) /\ ~(HasLine(v) /\ HasLines(v))) THEN <<0, 1>>
    ELSE LET x == Offset(v, V)
         IN  CASE v[1] \in {Top, TopOfSubtitle} -> x
               [] v[1] = Middle -> <<2 * x[1] + x[2], 2 * x[2]>>
               [] v[1] = Bottom -> <<x[2] - x[1], x[2]>>

\* two positions are compared by what they have in common
VEqual(a, b) ==
    /\ HasRef(a) /\ HasRef(b) /\ a[1] = b[1]
    /\ \/ HasProp(a) /\ HasProp(b) /\ a[4] = b[4]
       \/ ~(HasProp(a) /\ HasProp(b)) /\ HasLine(a) /\ HasLine(b) /\ a[2] = b[2] /\ ((HasLines(a) /\ HasLines(b)) => a[3] = b[3])

SameWay(a, b) == HasRef(a) = HasRef(b) /\ \A i \in 2..4 : (a[i] = <<>>) = (b[i] = <<>>)
Specified(v) == HasRef(v) /\ (HasProp(v) \/ HasLine(v))

(* Horizontal positions: the same within less than a pixel of 1998; n / H *)
Abs(x) == IF x < 0 THEN -x ELSE x
HEqual(a, b, H) == a[1] = b[1] /\ Abs(a[2] - b[2]) * 1998 < H

---------------------------------------------------------------------------
(* Font sizes; n / V of the screen, which is so many points high *)
SizeSpecified(s) == s[1] # ""
ProportionOf(s, V, height) == IF s[1] = "pr" THEN <<s[2], V>> ELSE <<s[2], height>>
\* the whole numbers of points nearest to it
NearestTo(n, d) ==
    LET q == n \div d
        r == n - q * d
    IN  IF 2 * r < d THEN {q} ELSE IF 2 * r = d THEN {q, q + 1} ELSE {q + 1}
PointsOf(s, V, height) == IF s[1] = "pt" THEN {s[2]} ELSE NearestTo(s[2] * height, V)

\* ... given in both ways, <<points, proportion>>, each optional: what was given is what it is
BothSpecified(s) == s[1] # <<>> \/ s[2] # <<>>
ProportionOfBoth(s, V, height) == IF s[2] # <<>> THEN <<s[2][1], V>> ELSE <<s[1][1], height>>
PointsOfBoth(s, V, height) == IF s[1] # <<>> THEN {s[1][1]} ELSE NearestTo(s[2][1] * height, V)

---------------------------------------------------------------------------
(* Rational numbers <<n, d>>, n >= 0 and d > 0; the same fraction written another way is not equal *)
RatWhole(a) == a[1] % a[2] = 0
RatFloor(a) == a[1] \div a[2]
RatMax(a, b) == IF Less(a, b) THEN {b} ELSE IF Less(b, a) THEN {a} ELSE {a, b}

---------------------------------------------------------------------------
(* Colours, a digit at a time *)
ColourStart == [n |-> 0, v |-> <<0, 0, 0, 0>>]
ColourDigit(m, c) == [n |-> m.n + 1, v |-> [m.v EXCEPT ![(m.n \div 2) + 1] = @ * 16 + HexVal(c)]]
\* digits: 6 or 8
ColourOf(m) == SubSeq(m.v, 1, 3)

---------------------------------------------------------------------------
Effects == ("none" :> "") @@ ("border" :> "border") @@ ("shadow" :> "shadow")
References == ("top" :> Top) @@ ("center" :> Middle) @@ ("bottom" :> Bottom)

White_(c) == c \in {32, 9, 10}
BlankText(s) == \A i \in 1..Len(s) : White_(s[i])

---------------------------------------------------------------------------
(* Subtitles: <<from, to, fades, lines>> as in Raw; positions are compared as above *)
BlockEqual(a, b) == a = b
LineEqual(a, b, H) == HEqual(a.h, b.h, H) /\ VEqual(a.v, b.v) /\ a.b = b.b
SubEqual(a, b, H) == /\ <<a.f, a.o, a.fu, a.fd>> = <<b.f, b.o, b.fu, b.fd>>
                     /\ Len(a.l) = Len(b.l) /\ \A i \in 1..Len(a.l) : LineEqual(a.l[i], b.l[i], H)
=============================================================================
