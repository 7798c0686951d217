--------------------------------- MODULE Tags ---------------------------------
(* One SSA override tag, such as \b1 or \pos(10,20), applied to a fragment.    *)
(* cx is the context: [rx, ry, colour, left, right]: the script's resolution,  *)
(* the style's primary colour and the margins in force.                        *)
EXTENDS Raw

\* The horizontal offset that follows from the reference and the margins, in 1/(20 rx)
HorizontalOffset(ref, cx) ==
    CASE ref = Left -> 20 * cx.left
      [] ref = Centre -> 10 * (cx.left - cx.right)
      [] ref = Right -> 20 * cx.right

Align(r, n, cx) ==
    LET hr == CASE n \in {1, 4, 7} -> Left [] n \in {2, 5, 8} -> Centre [] OTHER -> Right
        vr == CASE n <= 3 -> Bottom [] n <= 6 -> Middle [] OTHER -> Top
    IN  [r EXCEPT !.h = <<hr, HorizontalOffset(hr, cx)>>, !.v[1] = vr]

\* &Hbbggrr or &Haabbggrr: the last six hex digits count; a missing digit is 0
HexColour(s) ==
    LET i == LTrimTo(s, 1, {38, 72})
        d == SubSeq(s, i, HexEnd(s, i) - 1)
        p == <<48, 48, 48, 48, 48, 48>> \o d
        q == From(p, Len(p) - 5)
    IN  <<HexByte(q, 5), HexByte(q, 3), HexByte(q, 1)>>

IsHexColour(s) == Len(s) >= 2 /\ s[1] = 38 /\ s[2] = 72

L_i1 == B("\\i1")   L_i0 == B("\\i0")   L_i == B("\\i")
L_b1 == B("\\b1")   L_b0 == B("\\b0")
L_u1 == B("\\u1")   L_u0 == B("\\u0")
L_an == B("\\an")   L_pos == B("\\pos") L_fs == B("\\fs") L_c == B("\\c")

OK(r) == [err |-> "", r |-> r]
Fail(r, e) == [err |-> e, r |-> r]

\* The effect of a whole tag (with its backslash) on fragment r
ApplyTag(r, tag, cx) ==
    CASE tag = L_i1 -> OK(SetItalic(r, 1))
      [] tag = L_i0 \/ tag = L_i -> OK(SetItalic(r, 0))
      [] tag = L_b1 -> OK(SetBold(r, 1))
      [] tag = L_b0 -> OK(SetBold(r, 0))
      [] tag = L_u1 -> OK(SetUnderline(r, 1))
      [] tag = L_u0 -> OK(SetUnderline(r, 0))
      [] Len(tag) = 4 /\ StartsWith(tag, L_an) /\ tag[4] >= 49 /\ tag[4] <= 57 ->
            OK(Align(r, tag[4] - 48, cx))
      [] StartsWith(tag, L_pos) ->
            LET p == Split(tag, {40, 44})
            IN  IF Len(p) # 3 THEN Fail(r, "SSAError")
                ELSE OK([r EXCEPT !.h = <<Left, LeadingTwentieths(p[2])>>,
                                  !.v = <<Top, r.v[2], r.v[3], <<LeadingTwentieths(p[3])>>>>])
      [] StartsWith(tag, L_fs) /\ Len(tag) > 3 /\ IsDigit(tag[4]) ->
            OK([r EXCEPT !.fs = <<"pr", LeadingTwentieths(From(tag, 4))>>])
      [] tag = L_c -> OK([r EXCEPT !.c = cx.colour])
      [] StartsWith(tag, L_c) /\ Len(tag) > 2 /\ tag[3] = 38 ->
            LET v == From(tag, 3)
            IN  IF IsHexColour(v) THEN OK([r EXCEPT !.c = HexColour(v)]) ELSE Fail(r, "SSAError")
      [] OTHER -> OK(r)
==============================================================================
