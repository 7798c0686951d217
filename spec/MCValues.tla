------------------------------ MODULE MCValues ------------------------------
(* Values built up field by field, one or two at a time.  Kind: which values.     *)
EXTENDS Values, Json

CONSTANTS Kind, Big

VARIABLES one, two, third, stage
vars == <<one, two, third, stage>>

Opt(S) == { <<>> } \cup { <<x>> : x \in S }
V == 100
Refs == -1..3

\* a screen of positions
VSet == { <<r, l, n, p>> : r \in Refs, l \in Opt({-1, 0, 5, 12}), n \in Opt({12, 23, 24}), p \in Opt({-20, 0, 50, 100}) }
VFew == { <<r, l, n, p>> : r \in (IF Big THEN Refs ELSE {-1, 0, 1, 2}), l \in Opt(IF Big THEN {0, 6, 12} ELSE {6, 12}), n \in Opt({12, 24}), p \in Opt({0, 50}) }
HSet == { <<r, n>> : r \in 0..2, n \in {-3, 0, 1, 4, 5, 1000, 1001, 1004} }
Heights == {1, 10, 72, 288, 792, 1080}
BSet == { <<p, q>> : p \in Opt({0, 31, 42}), q \in Opt({0, 10, 33}) }
RSet == { <<n, d>> : n \in {0, 1, 2, 24, 25, 48, 1000, 1001, 24000, 24024, 30000}, d \in {1, 2, 25, 1000, 1001} }
SSet == { NoSize } \cup { <<"pt", n>> : n \in {0, 1, 31, 42, 288, 1000} } \cup { <<"pr", n>> : n \in {0, 1, 5, 10, 33, 100, 150} }
Digits == {48, 57, 97, 70, 66}
CSet == [1..6 -> Digits]

(* A subtitle, and everything that may be different about it *)
Blk == [t |-> <<97>>, s |-> <<0, 0, 0>>, c |-> <<10, 20, 30>>, e |-> "", ec |-> <<>>, fn |-> <<>>, fs |-> NoSize]
Ln == [h |-> <<Centre, 10>>, v |-> <<Top, <<>>, <<>>, <<50>>>>, b |-> <<Blk>>]
Sb == [f |-> <<1, 2, 25, 1>>, o |-> <<3, 4, 25, 1>>, fu |-> <<>>, fd |-> <<>>, l |-> <<Ln>>]
InBlock == { [Blk EXCEPT !.t = <<98>>], [Blk EXCEPT !.t = <<>>], [Blk EXCEPT !.t = <<97, 97>>], [Blk EXCEPT !.s = <<1, 0, 0>>], [Blk EXCEPT !.s = <<0, 1, 0>>], [Blk EXCEPT !.s = <<0, 0, 1>>], [Blk EXCEPT !.s = <<1, 1, 1>>],
             [Blk EXCEPT !.c[1] = 11], [Blk EXCEPT !.c[2] = 21], [Blk EXCEPT !.c[3] = 31], [Blk EXCEPT !.e = "border"], [Blk EXCEPT !.e = "shadow"],
             [Blk EXCEPT !.ec = <<<<0, 0, 0>>>>], [Blk EXCEPT !.ec = <<<<1, 0, 0>>>>], [Blk EXCEPT !.ec = <<<<0, 1, 0>>>>], [Blk EXCEPT !.ec = <<<<0, 0, 1>>>>],
             [Blk EXCEPT !.fn = <<<<97>>>>], [Blk EXCEPT !.fn = <<<<98>>>>], [Blk EXCEPT !.fn = <<<<>>>>],
             [Blk EXCEPT !.fs = <<"pt", 1>>], [Blk EXCEPT !.fs = <<"pt", 2>>], [Blk EXCEPT !.fs = <<"pr", 1>>], [Blk EXCEPT !.fs = <<"pr", 2>>], [Blk EXCEPT !.fs = <<"pt", 0>>] }
InLine == { [Ln EXCEPT !.b = <<b>>] : b \in InBlock } \cup
          { [Ln EXCEPT !.h[1] = Left], [Ln EXCEPT !.h[1] = Right], [Ln EXCEPT !.h[2] = 20], [Ln EXCEPT !.v[1] = Bottom], [Ln EXCEPT !.v[1] = Middle], [Ln EXCEPT !.v[1] = TopOfSubtitle],
            [Ln EXCEPT !.v[4] = <<60>>], [Ln EXCEPT !.v = <<Top, <<3>>, <<>>, <<>>>>], [Ln EXCEPT !.v = <<Top, <<3>>, <<12>>, <<>>>>], [Ln EXCEPT !.v = <<Top, <<4>>, <<12>>, <<>>>>],
            [Ln EXCEPT !.v = <<Top, <<3>>, <<23>>, <<>>>>], [Ln EXCEPT !.v = <<Top, <<6>>, <<24>>, <<>>>>], [Ln EXCEPT !.v = <<Bottom, <<3>>, <<23>>, <<>>>>],
            [Ln EXCEPT !.b = <<>>], [Ln EXCEPT !.b = <<Blk, Blk>>], [Ln EXCEPT !.b = <<Blk, [Blk EXCEPT !.t = <<98>>]>>], [Ln EXCEPT !.b = <<[Blk EXCEPT !.t = <<98>>], Blk>>] }
Subs == { Sb } \cup { [Sb EXCEPT !.l = <<l>>] : l \in InLine } \cup
        { [Sb EXCEPT !.f = <<1, 3, 25, 1>>], [Sb EXCEPT !.f = <<2, 2, 25, 1>>], [Sb EXCEPT !.o = <<3, 5, 25, 1>>], [Sb EXCEPT !.fu = <<<<0, 1, 25, 1>>>>], [Sb EXCEPT !.fu = <<<<0, 2, 25, 1>>>>],
          [Sb EXCEPT !.fd = <<<<0, 1, 25, 1>>>>], [Sb EXCEPT !.fd = <<<<0, 2, 25, 1>>>>],
          [Sb EXCEPT !.l = <<>>], [Sb EXCEPT !.l = <<Ln, Ln>>], [Sb EXCEPT !.l = <<Ln, [Ln EXCEPT !.h[2] = 20]>>], [Sb EXCEPT !.l = <<[Ln EXCEPT !.h[2] = 20], Ln>>] }

First == CASE Kind = "fsb" -> BSet [] Kind = "rat" -> RSet [] Kind = "v" -> VFew [] Kind = "vone" -> VSet [] Kind = "h" -> HSet [] Kind = "fs" -> SSet [] Kind = "fscmp" -> SSet
           [] Kind = "rgb" -> { ColourStart } [] Kind = "sub" -> Subs [] Kind = "blank" -> { <<>> }
Second == CASE Kind = "fsb" -> BSet [] Kind = "rat" -> RSet [] Kind = "v" -> VFew [] Kind = "vone" -> {} [] Kind = "h" -> HSet [] Kind = "fs" -> Heights [] Kind = "fscmp" -> SSet [] Kind = "sub" -> Subs [] OTHER -> {}

Init == one \in First /\ two = <<>> /\ third = <<>> /\ stage = 1
Choose == stage = 1 /\ \E x \in Second : two' = x /\ stage' = 2 /\ UNCHANGED <<one, third>>
\* strings, a character at a time
Type == /\ Kind \in {"rgb", "blank"} /\ Len(two) < (IF Kind = "rgb" THEN (IF Big THEN 8 ELSE 6) ELSE 4)
        /\ \E d \in (IF Kind = "rgb" THEN (IF Len(two) < 4 \/ Big THEN Digits ELSE {48, 102}) ELSE {32, 9, 10, 13, 97, 0, 160}) :
              two' = Append(two, d) /\ one' = (IF Kind = "rgb" THEN ColourDigit(one, d) ELSE one) /\ UNCHANGED <<third, stage>>
Next == Choose \/ Type
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Pair == stage = 2
Comparable(a, b) == Len(a.l) = Len(b.l) => \A i \in 1..Len(a.l) : HasProp(a.l[i].v) = HasProp(b.l[i].v) => SameWay(a.l[i].v, b.l[i].v)
\* equality is symmetric, reflexive on what is specified, and agrees with the fraction
VLaws == Kind \in {"v", "vone"} =>
            /\ Specified(one) => VEqual(one, one)
            /\ Pair => /\ VEqual(one, two) = VEqual(two, one)
                       /\ (SameWay(one, two) /\ VEqual(one, two)) => Same(Fraction(one, V), Fraction(two, V))
                       \* given the same way and equal means that nothing that counts is different
                       /\ (SameWay(one, two) /\ VEqual(one, two)) => one[1] = two[1] /\ (IF HasProp(one) THEN one[4] = two[4] ELSE one[2] = two[2] /\ one[3] = two[3])
                       /\ ~(Less(Fraction(one, V), Fraction(two, V)) /\ Less(Fraction(two, V), Fraction(one, V)))
                       /\ (SameWay(one, two) /\ VEqual(one, two)) => ~Less(Fraction(one, V), Fraction(two, V))
                       \* more of the same is further from the reference
                       /\ (SameWay(one, two) /\ one[1] = two[1] /\ HasRef(one) /\ HasProp(one) /\ one[4][1] < two[4][1]) =>
                             (IF one[1] = Bottom THEN Less(Fraction(two, V), Fraction(one, V)) ELSE Less(Fraction(one, V), Fraction(two, V)))
HLaws == (Kind = "h" /\ Pair) => HEqual(one, two, 3996) = HEqual(two, one, 3996) /\ HEqual(one, one, 3996)
\* points to a proportion and back
SizeLaws == (Kind = "fs" /\ Pair /\ SizeSpecified(one)) =>
               LET p == ProportionOf(one, V, two)
               IN  /\ one[1] = "pt" => NearestTo(p[1] * two, p[2]) = {one[2]}
                   /\ one[1] = "pr" => p = <<one[2], V>>
                   /\ \A n \in PointsOf(one, V, two) : Abs(2 * (n * p[2] - p[1] * two)) <= p[2]
\* a subtitle is equal to itself and to nothing else
SubLaws == (Kind = "sub" /\ Pair) => /\ SubEqual(one, two, V) = SubEqual(two, one, V)
                                     /\ (one = two /\ \A i \in 1..Len(one.l) : Specified(one.l[i].v)) => SubEqual(one, two, V)
                                     \* (a line of so many rows may be compared with one of a screen whose rows are not known)
                                     /\ (one # two /\ Comparable(one, two)) => ~SubEqual(one, two, V)
BothLaws == (Kind = "fsb" /\ Pair /\ BothSpecified(one)) =>
               \* one way of giving it is no different from before
               /\ (one[2] = <<>>) => ProportionOfBoth(one, V, 288) = ProportionOf(<<"pt", one[1][1]>>, V, 288) /\ PointsOfBoth(one, V, 288) = {one[1][1]}
               /\ (one[1] = <<>>) => ProportionOfBoth(one, V, 288) = <<one[2][1], V>> /\ PointsOfBoth(one, V, 288) = PointsOf(<<"pr", one[2][1]>>, V, 288)
RatLaws == (Kind = "rat" /\ Pair) =>
               /\ RatMax(one, two) = RatMax(two, one) /\ \A m \in RatMax(one, two) : m \in {one, two} /\ ~Less(m, one) /\ ~Less(m, two)
               /\ RatWhole(one) <=> Same(one, <<RatFloor(one), 1>>)
               /\ ~Less(one, <<RatFloor(one), 1>>) /\ Less(one, <<RatFloor(one) + 1, 1>>)
ColourLaws == (Kind = "rgb" /\ Len(two) >= 6) => \A i \in 1..3 : ColourOf(one)[i] = HexVal(two[2 * i - 1]) * 16 + HexVal(two[2 * i])

Emit == CASE Kind = "vone" /\ stage = 1 -> PrintT(ToJson([a |-> one, f |-> Fraction(one, V)]))
          [] Kind = "v" /\ Pair -> PrintT(ToJson([a |-> one, b |-> two, eq |-> VEqual(one, two), sure |-> SameWay(one, two) \/ ~VEqual(one, two), same |-> SameWay(one, two) /\ one = two,
                                                  lt |-> Less(Fraction(one, V), Fraction(two, V)), gt |-> Less(Fraction(two, V), Fraction(one, V))]))
          [] Kind = "h" /\ Pair -> PrintT(ToJson([a |-> one, b |-> two, eq |-> HEqual(one, two, 3996)]))
          [] Kind = "fs" /\ Pair -> PrintT(ToJson([a |-> one, h |-> two, spec |-> SizeSpecified(one), pr |-> IF SizeSpecified(one) THEN ProportionOf(one, V, two) ELSE <<0, 1>>,
                                                   pt |-> IF SizeSpecified(one) THEN PointsOf(one, V, two) ELSE {}]))
          [] Kind = "fsb" /\ Pair -> PrintT(ToJson([a |-> one, b |-> two, eq |-> one = two, spec |-> BothSpecified(one), pr |-> IF BothSpecified(one) THEN ProportionOfBoth(one, V, 288) ELSE <<0, 1>>,
                                                    pt |-> IF BothSpecified(one) THEN PointsOfBoth(one, V, 288) ELSE {}]))
          [] Kind = "rat" /\ Pair -> PrintT(ToJson([a |-> one, b |-> two, eq |-> one = two, whole |-> RatWhole(one), floor |-> RatFloor(one), mx |-> RatMax(one, two)]))
          [] Kind = "fscmp" /\ Pair -> PrintT(ToJson([a |-> one, b |-> two, eq |-> one = two]))
          [] Kind = "rgb" -> PrintT(ToJson([x |-> two, c |-> IF Len(two) >= 6 THEN ColourOf(one) ELSE <<>>, full |-> Len(two) = 8]))
          [] Kind = "blank" -> PrintT(ToJson([x |-> two, blank |-> BlankText(two)]))
          [] Kind = "sub" /\ Pair -> PrintT(ToJson([a |-> one, b |-> two, eq |-> SubEqual(one, two, V), sure |-> Comparable(one, two)]))
          [] OTHER -> TRUE
=============================================================================
