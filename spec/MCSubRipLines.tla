--------------------------- MODULE MCSubRipLines ---------------------------
(* Every SubRip file of up to Depth lines over a small alphabet of lines.     *)
(* The reader's machine is checked against a declarative reading of the file, *)
(* and each file with its expected outcome is printed, to be replayed into    *)
(* the real reader.                                                           *)
EXTENDS SubRip, Json

CONSTANTS Depth, Emitting, Narrow

Blank1 == <<>>
T1 == B("00:00:01,000 --> 00:00:02,500")
T2 == B("1:02:03,004 --> 1:02:05,6  ") \o <<CR>>
T7 == B("00:00:05,000 --> 00:00:06,000 X1:1 X2:2 Y1:3 Y2:4")

\* kind: "blank", "time" (with its times), "text" (with its rows), "bad" (not a timing line)
Sym == <<
    [b |-> <<>>, k |-> "blank"],
    [b |-> <<CR>>, k |-> "blank"],
    [b |-> BOM \o B("1"), k |-> "text", rows |-> << B("1") >>],
    [b |-> B("a <b>b</b>"), k |-> "text", rows |-> << B("a b") >>],
    [b |-> B("<i>c") \o LineSeparator \o B("d "), k |-> "text", rows |-> << B("c"), B("d ") >>],
    [b |-> B("<u>"), k |-> "text", rows |-> << <<>> >>],
    [b |-> T1, k |-> "time", f |-> MsTime(0, 0, 1, 0), o |-> MsTime(0, 0, 2, 500), rows |-> << T1 >>],
    [b |-> T2, k |-> "time", f |-> MsTime(1, 2, 3, 4), o |-> MsTime(1, 2, 5, 6), rows |-> << B("1:02:03,004 --> 1:02:05,6  ") >>],
    [b |-> T7, k |-> "time", f |-> MsTime(0, 0, 5, 0), o |-> MsTime(0, 0, 6, 0), rows |-> << T7 >>],
    [b |-> B("00:00:01.000 --> 00:00:02,500"), k |-> "text", rows |-> << B("00:00:01.000 --> 00:00:02,500") >>],
    [b |-> B("00:0x:01,000 --> 00:00:02,500"), k |-> "text", rows |-> << B("00:0x:01,000 --> 00:00:02,500") >>],
    [b |-> B("<font size=1>"), k |-> "badtag", rows |-> << <<>> >>] >>

VARIABLES inp, st
vars == <<inp, st>>

Init == inp = <<>> /\ st = Start

\* a few lines only, so as to get further
Shapes == IF Narrow THEN {1, 4, 5, 7} ELSE 1..Len(Sym)

Next == /\ Len(inp) < Depth
        /\ ~(Failed(st) /\ st.extra = 0)
        /\ \E c \in Shapes : inp' = Append(inp, c) /\ st' = ReadLine(st, Sym[c].b)

Spec == Init /\ [][Next]_vars

(* ---- the declarative reading ---- *)

Kind(j) == Sym[inp[j]].k
IsBlank(j) == Kind(j) = "blank"
\* line j's place in its run of non-blank lines: 1 for a counter, 2 for the timing line, 3.. for text
RECURSIVE Place(_)
Place(j) == IF IsBlank(j) THEN 0 ELSE IF j = 1 \/ IsBlank(j - 1) THEN 1 ELSE 1 + Place(j - 1)

\* the timing line of the cue that text line j belongs to
TimeOf(j) == j - (Place(j) - 2)

\* lines where a fault shows
Faults == { j \in 1..Len(inp) :
              \/ IsBlank(j) /\ j > 1 /\ ~IsBlank(j - 1) /\ Place(j - 1) = 1
              \/ Place(j) = 2 /\ Kind(j) # "time"
              \/ Place(j) > 2 /\ Kind(j) = "badtag" }
FirstFault == IF Faults = {} THEN 0 ELSE CHOOSE j \in Faults : \A i \in Faults : j <= i

\* row number of the first row of text line j
RowsIn(j) == Len(Sym[inp[j]].rows)
RECURSIVE FirstRow(_)
FirstRow(j) == IF Place(j) = 3 THEN 0 ELSE FirstRow(j - 1) + RowsIn(j - 1)

NonEmpty(s) == SelectSeq(s, LAMBDA x : x.t # <<>>)
RowViews(j) == NonEmpty([r \in 1..RowsIn(j) |->
                  [t |-> Sym[inp[j]].rows[r], row |-> FirstRow(j) + r - 1,
                   f |-> Sym[inp[TimeOf(j)]].f, o |-> Sym[inp[TimeOf(j)]].o]])
RECURSIVE ViewsFrom(_)
ViewsFrom(j) == IF j > Len(inp) THEN <<>>
                ELSE (IF Place(j) > 2 THEN RowViews(j) ELSE <<>>) \o ViewsFrom(j + 1)

\* "a " and "b" are the two fragments of one row in this alphabet
Glue(a, b) == a = B("a ") /\ b = B("b")

\* fragments put back together row by row
RECURSIVE Join(_, _)
Join(subs, acc) ==
    IF subs = <<>> THEN acc
    ELSE LET x == Head(subs)
             v == [t |-> x.t, row |-> x.v[2][1], f |-> x.f, o |-> x.o]
             n == Len(acc)
         IN  IF n > 0 /\ acc[n].row = v.row /\ acc[n].f = v.f /\ acc[n].o = v.o /\ Glue(acc[n].t, v.t)
             THEN Join(Tail(subs), [acc EXCEPT ![n].t = @ \o v.t])
             ELSE Join(Tail(subs), Append(acc, v))

\* C04: rows, times and order are those of the declarative reading
CuesAreRows == Faults = {} => ~Failed(st) /\ Join(st.subs, <<>>) = ViewsFrom(1)

\* C06: the reader stops exactly at the first fault, with its line number and the lines around it
Tidied(j) == Tidy(Sym[inp[j]].b)
\* a bad timing line is shown with what follows it
Following(j) == IF Place(j) <= 2 /\ Len(SplitRuns(RTrim(Tidied(j), {SPC}), {SPC})) \notin {3, 7}
                THEN Min(2, Len(inp) - j) ELSE 0
ErrorsAreLocated ==
    LET j == FirstFault
    IN  j > 0 => /\ Failed(st) /\ st.err[1].line = j
                 /\ st.ctx = [i \in 1..Min(j, 5) |-> Tidied(Max(0, j - 5) + i)]
                               \o [i \in 1..Following(j) |-> RTrim(Sym[inp[j + i]].b, {CR})]

\* style never crosses cues: the first row of a cue is plain
CuesStartPlain == \A i \in 1..Len(st.subs) : st.subs[i].v[2] = <<0>> /\ st.subs[i].t = B("a ") => st.subs[i].s = <<0, 0, 0>>

NoEmptyText == \A i \in 1..Len(st.subs) : st.subs[i].t # <<>>

RECURSIVE InputBytes(_)
InputBytes(j) == IF j > Len(inp) THEN <<>> ELSE Sym[inp[j]].b \o <<LF>> \o InputBytes(j + 1)

Emit == Emitting => PrintT(ToJson([in |-> InputBytes(1), x |-> Result(st)]))
============================================================================
