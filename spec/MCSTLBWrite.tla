---------------------------- MODULE MCSTLBWrite ----------------------------
(* Every list of subtitles made of up to Depth chunks is written and read back.  *)
EXTENDS STLBinary, Json

CONSTANTS Depth, Alphabet

Sym == <<
    [k |-> "text", b |-> B("a"), s |-> <<0, 0, 0>>],
    [k |-> "text", b |-> B("i"), s |-> <<0, 1, 0>>],
    [k |-> "line", n |-> 1],
    [k |-> "text", b |-> B("u"), s |-> <<0, 0, 1>>],
    [k |-> "sub", n |-> 0],
    [k |-> "text", b |-> [i \in 1..110 |-> 48 + (i % 10)], s |-> <<0, 0, 0>>],       \* nearly a block
    [k |-> "line", n |-> 3],
    [k |-> "text", b |-> B("b"), s |-> <<1, 1, 1>>],
    [k |-> "text", b |-> <<195, 169>>, s |-> <<0, 0, 0>>],                           \* e acute
    [k |-> "text", b |-> <<226, 152, 186, 36, 226, 128, 148>>, s |-> <<0, 1, 0>>],   \* not carried; $; dash
    [k |-> "text", b |-> Concat([i \in 1..56 |-> <<197, 160>>]), s |-> <<0, 0, 1>>], \* 56 times two bytes
    [k |-> "line", n |-> 0],                                                         \* a line on the same row
    [k |-> "text", b |-> <<>>, s |-> <<0, 1, 0>>] >>

Shapes == CASE Alphabet = "all" -> 1..Len(Sym) [] Alphabet = "style" -> {1, 2, 3, 4, 5} [] Alphabet = "long" -> {1, 3, 6, 10, 11}

VARIABLES inp
vars == <<inp>>
Init == inp = <<>>
Next == Len(inp) < Depth /\ \E c \in Shapes : inp' = Append(inp, c)
Spec == Init /\ [][Next]_vars

(* ---- the subtitles ---- *)

K(j) == Sym[inp[j]].k
V == 2300

\* row r of the screen in one of several ways (each a little off, but nearest to it)
Way(w, r) ==
    CASE w = 0 -> <<Top, <<>>, <<>>, <<r * 100 + 20>>>>
      [] w = 1 -> <<Bottom, <<>>, <<>>, <<2300 - r * 100 + 40>>>>
      [] w = 2 -> <<TopOfSubtitle, <<r>>, <<>>, <<>>>>
      [] w = 3 -> <<Top, <<r * 3 + 1>>, <<69>>, <<>>>>
      [] w = 4 -> <<Middle, <<>>, <<>>, <<r * 100 - 1150 - 30>>>>
      [] w = 5 -> <<-1, <<>>, <<>>, <<r * 100>>>>
      [] w = 6 -> <<Bottom, <<23 - r>>, <<23>>, <<>>>>
      [] w = 7 -> <<Middle, <<4 * r - 45>>, <<92>>, <<>>>>

Times == << <<1, 0, 1000, 1>>, <<59, 999, 1000, 1>>, <<3599, 981, 1000, 1>>, <<86398, 500, 1000, 1>>, <<7325, 23, 24, 1>>, <<36000, 29, 30, 1>>, <<60, 23, 24000, 1001>> >>
T(n) == Times[(n % Len(Times)) + 1]

Line(v, h) == [v |-> v, h |-> <<h, 0>>, b |-> <<>>]
NewSub(n) == [f |-> T(n), o |-> T(n + 3), l |-> << Line(Way(n % 8, (n * 5) % 21), (n + 1) % 3) >>]

\* acc: subtitles so far; row: of the current line
RECURSIVE SubsFrom(_, _, _)
SubsFrom(j, acc, row) ==
    IF j > Len(inp) THEN acc
    ELSE LET n == Len(acc)
             m == Len(acc[n].l)
         IN CASE K(j) = "text" -> SubsFrom(j + 1, [acc EXCEPT ![n].l[m].b = Append(@, [t |-> Sym[inp[j]].b, s |-> Sym[inp[j]].s])], row)
              [] K(j) = "line" -> LET r == row + Sym[inp[j]].n IN SubsFrom(j + 1, [acc EXCEPT ![n].l = Append(@, Line(Way((n + m + Depth) % 8, r), m % 3))], r)
              [] K(j) = "sub" -> SubsFrom(j + 1, Append(acc, NewSub(n + Len(inp))), ((n + Len(inp)) * 5) % 21)
Subs == SubsFrom(1, << NewSub(Len(inp)) >>, (Len(inp) * 5) % 21)

Hdr == << B("Title"), <<>>, B("Translated programme title 32 ch"), B("x"), <<>>, B("me@nowhere"), B("140115"), B("140116"), B("GBR"), B("Pub"), <<>>, B("ed@itor") >>
Rates == <<23976, 24000, 25000, 30000>>
Job == [subs |-> Subs, mhz |-> Rates[((Len(inp) + Len(Subs)) % 4) + 1], lang |-> (Len(inp) * 7 + Len(Subs)) % 103, hdr |-> Hdr, rev |-> Len(inp) * 9, V |-> V]

Out == STLBWrite(Job)

\* C13 and C14 for the specified writer and reader
WrittenWell == WellFormedFault(Out, Job) = ""
ReadsBack == RoundTripFault(Job, STLBRead(Out)) = ""

Emit == PrintT(ToJson(Job))
=============================================================================
