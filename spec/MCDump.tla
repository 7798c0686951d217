------------------------------- MODULE MCDump -------------------------------
(* Every list of up to Depth fragments over a few styles and positions; what the  *)
(* dump shows is read back by a small reader of dumps.                            *)
EXTENDS Dump, Json

CONSTANTS Depth, Kind       \* "style" or "position"

Styles == << <<0, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<0, 1, 1>>, <<1, 0, 0>> >>
P0 == <<Top, <<3>>, <<23>>, <<>>>>
Positions == << P0, <<-1, <<>>, <<>>, <<>>>>, <<TopOfSubtitle, <<0>>, <<>>, <<>>>>, <<TopOfSubtitle, <<1>>, <<>>, <<>>>>, <<Middle, <<>>, <<>>, <<-5>>>>, <<Bottom, <<>>, <<>>, <<10>>>>,
                <<Top, <<>>, <<>>, <<100>>>>, <<-1, <<>>, <<>>, <<33>>>>, <<Bottom, <<2>>, <<11>>, <<>>>>, <<-1, <<2>>, <<24>>, <<>>>>, <<-1, <<4>>, <<>>, <<>>>>, <<Top, <<1>>, <<23>>, <<0>>>> >>
Times == << <<1, 0, 1000, 1>>, <<1, 5, 25, 1>>, <<3661, 23, 24000, 1001>>, <<7, 3, 0, 0>> >>

\* a fragment: style, position, time, text
Shapes == IF Kind = "style" THEN { <<s, p, t, x>> : s \in 1..4, p \in {1}, t \in {1}, x \in {1} } \cup { <<1, 6, 1, 1>>, <<4, 6, 1, 1>>, <<2, 1, 2, 1>>, <<4, 1, 1, 2>>, <<5, 1, 1, 1>> }
          ELSE { <<s, p, t, x>> : s \in {1, 2}, p \in 1..Len(Positions), t \in {1}, x \in {1} } \cup { <<1, 1, t, 1>> : t \in 1..3 }

VARIABLES inp
vars == <<inp>>
Init == inp = <<>>
Next == Len(inp) < Depth /\ \E q \in Shapes : inp' = Append(inp, q)
Spec == Init /\ [][Next]_vars

Fragment(q, i) == [DefaultRaw EXCEPT !.t = IF q[4] = 2 THEN <<>> ELSE B("t") \o DecOf(i), !.s = Styles[q[1]], !.v = Positions[q[2]], !.f = Times[q[3]], !.o = Times[((q[3] + 1) % 3) + 1]]
Raws == [i \in 1..Len(inp) |-> Fragment(inp[i], i)]
Meta == CASE Len(inp) % 3 = 0 -> <<>>
          [] Len(inp) % 3 = 1 -> << <<B("Name"), B("A value: this")>> >>
          [] OTHER -> << <<B("A"), <<>>>>, <<B("b c"), B("<i>")>> >>

Out == DumpText(Meta, Raws)
Subs == CollectAll(Raws)

(* ---- reading a dump ---- *)

Ls == SplitWord(Out, <<LF>>)
\* what a line of text shows: each character with italic and underline; bad if a marker opens or closes twice
RECURSIVE Shown(_, _, _, _)
Shown(t, i, it, acc) ==
    IF i > Len(t) THEN [ok |-> it = <<0, 0>>, chars |-> acc]
    ELSE CASE At(t, i, ItalicOn) -> IF it[1] = 1 THEN [ok |-> FALSE] ELSE Shown(t, i + 3, <<1, it[2]>>, acc)
           [] At(t, i, ItalicOff) -> IF it[1] = 0 THEN [ok |-> FALSE] ELSE Shown(t, i + 4, <<0, it[2]>>, acc)
           [] At(t, i, UnderlineOn) -> IF it[2] = 1 THEN [ok |-> FALSE] ELSE Shown(t, i + 3, <<it[1], 1>>, acc)
           [] At(t, i, UnderlineOff) -> IF it[2] = 0 THEN [ok |-> FALSE] ELSE Shown(t, i + 4, <<it[1], 0>>, acc)
           [] OTHER -> Shown(t, i + 1, it, Append(acc, <<t[i], it[1], it[2]>>))
RECURSIVE Want(_, _)
Want(bs, i) == IF i > Len(bs) THEN <<>> ELSE [n \in 1..Len(bs[i].t) |-> <<bs[i].t[n], bs[i].s[2], bs[i].s[3]>>] \o Want(bs, i + 1)

\* the lines of the dump that show subtitle n
LineOf(n) == LET Sum[k \in 1..n] == IF k = 1 THEN Len(Meta) + 1 ELSE Sum[k - 1] + 1 + Len(Subs[k - 1].l) IN Sum[n]

Faithful ==
    /\ \A n \in 1..Len(Subs) :
         /\ Ls[LineOf(n)] = B("Subtitle ") \o DecOf(n - 1) \o B(" at ") \o TimeText(Subs[n].f) \o B(" -> ") \o TimeText(Subs[n].o)
         /\ \A m \in 1..Len(Subs[n].l) :
              LET P == SplitWord(Ls[LineOf(n) + m], <<TAB>>)
                  sh == Shown(P[3], 1, <<0, 0>>, <<>>)
              IN  Len(P) = 3 /\ P[1] = <<>> /\ sh.ok /\ sh.chars = Want(Subs[n].l[m].b, 1)
    /\ \A i \in 1..Len(Meta) : Ls[i] = Meta[i][1] \o B(": ") \o Meta[i][2]
    /\ Ls[Len(Ls)] = <<>>
    /\ Len(Ls) = 1 + Len(Meta) + Len(Subs) + (LET Sum[k \in 0..Len(Subs)] == IF k = 0 THEN 0 ELSE Sum[k - 1] + Len(Subs[k].l) IN Sum[Len(Subs)])
\* different positions look different
Distinct == \A p, q \in 1..Len(Positions) : PositionText(Positions[p]) = PositionText(Positions[q]) =>
              p = q \/ {p, q} \subseteq {3, 4} \/ {p, q} \subseteq {2, 11}

Emit == PrintT(ToJson([raw |-> Raws, meta |-> Meta, out |-> Out]))
=============================================================================
