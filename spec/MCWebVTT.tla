------------------------------ MODULE MCWebVTT ------------------------------
(* Every WebVTT file of up to Depth lines over a small alphabet of lines.      *)
EXTENDS WebVTT, Json

CONSTANTS Depth, Emitting, Narrow

T1 == B("00:00:01.000 --> 00:00:02.500")
T2 == B("1:02:03.004 --> 01:02:05.6 ") \o <<CR>>
T3 == B("00:00:05.000 --> 00:00:06.000 position:1 line:2 size:3 align:end")

Sym == <<
    [b |-> B("WEBVTT"), k |-> "head", rows |-> <<B("WEBVTT")>>],
    [b |-> <<>>, k |-> "blank", rows |-> <<>>],
    [b |-> B("foo <b>x"), k |-> "text", rows |-> <<B("foo <b>x")>>],
    [b |-> T1, k |-> "time", f |-> MsTime(0, 0, 1, 0), o |-> MsTime(0, 0, 2, 500), rows |-> <<T1>>],
    [b |-> B("NOTE"), k |-> "note", rows |-> <<B("NOTE")>>],
    [b |-> BOM \o B("WEBVTT - title"), k |-> "head", rows |-> <<B("WEBVTT - title")>>],
    [b |-> <<CR>>, k |-> "blank", rows |-> <<>>],
    [b |-> B("c") \o LineSeparator \o B("d "), k |-> "text", rows |-> <<B("c"), B("d ")>>],
    [b |-> T2, k |-> "time", f |-> MsTime(1, 2, 3, 4), o |-> MsTime(1, 2, 5, 6), rows |-> <<B("1:02:03.004 --> 01:02:05.6 ")>>],
    [b |-> T3, k |-> "time", f |-> MsTime(0, 0, 5, 0), o |-> MsTime(0, 0, 6, 0), rows |-> <<T3>>],
    [b |-> B("NOTE 00:00:01.000 --> 00:00:02.500"), k |-> "note", rows |-> <<B("NOTE 00:00:01.000 --> 00:00:02.500")>>],
    [b |-> B("NOTEBOOK"), k |-> "text", rows |-> <<B("NOTEBOOK")>>],
    [b |-> B("00:00:01,000 --> 00:00:02.500"), k |-> "bad", rows |-> <<B("00:00:01,000 --> 00:00:02.500")>>],
    [b |-> B("a --> b c"), k |-> "badline", rows |-> <<B("a --> b c")>>],
    [b |-> B(" ") \o <<9>>, k |-> "text", rows |-> <<B(" ") \o <<9>>>>] >>

Shapes == IF Narrow THEN {1, 2, 3, 4, 5} ELSE 1..Len(Sym)

VARIABLES inp, st
vars == <<inp, st>>

Init == inp = <<>> /\ st = VTTStart

Next == /\ Len(inp) < Depth
        /\ ~(Failed(st) /\ st.extra = 0)
        /\ \E c \in Shapes : (Narrow /\ inp = <<>> => c = 1) /\ inp' = Append(inp, c) /\ st' = VTTReadLine(st, Sym[c].b)

Spec == Init /\ [][Next]_vars

(* ---- the declarative reading: what is between blank lines is a block ---- *)

Kind(j) == Sym[inp[j]].k
IsBlank(j) == Kind(j) = "blank"
HasTime(j) == Kind(j) \in {"time", "bad", "badline"}

\* the line where line j's block begins (the header line is a block of its own)
RECURSIVE BlockStart(_)
BlockStart(j) == IF j <= 2 \/ IsBlank(j - 1) THEN j ELSE BlockStart(j - 1)

\* In a block, the first of: a note (nothing after it counts) or a timing line (what is after it is text)
Deciders(j) == { i \in BlockStart(j)..j : Kind(i) = "note" \/ HasTime(i) }
Decider(j) == IF Deciders(j) = {} THEN 0 ELSE CHOOSE i \in Deciders(j) : \A x \in Deciders(j) : i <= x

IsText(j) == j > 1 /\ ~IsBlank(j) /\ Decider(j) > 0 /\ Decider(j) < j /\ HasTime(Decider(j))
Faults == { j \in 1..Len(inp) : \/ j = 1 /\ Kind(j) # "head"
                                \/ j > 1 /\ Kind(j) \in {"bad", "badline"} /\ Decider(j) = j }
FirstFault == IF Faults = {} THEN 0 ELSE CHOOSE j \in Faults : \A i \in Faults : j <= i

RowsIn(j) == Len(Sym[inp[j]].rows)
RECURSIVE FirstRow(_)
FirstRow(j) == IF Decider(j) = j - 1 THEN 0 ELSE FirstRow(j - 1) + RowsIn(j - 1)

RowViews(j) == [r \in 1..RowsIn(j) |->
                  [Fresh EXCEPT !.t = Sym[inp[j]].rows[r], !.v[2] = <<FirstRow(j) + r - 1>>,
                                !.f = Sym[inp[Decider(j)]].f, !.o = Sym[inp[Decider(j)]].o]]
RECURSIVE ViewsFrom(_)
ViewsFrom(j) == IF j > Len(inp) THEN <<>>
                ELSE (IF IsText(j) THEN RowViews(j) ELSE <<>>) \o ViewsFrom(j + 1)

\* C07
CuesAreRows == Faults = {} => ~Failed(st) /\ st.subs = ViewsFrom(1)

\* C06
Tidied(j) == Tidy(Sym[inp[j]].b)
Following(j) == IF Kind(j) = "badline" THEN Min(2, Len(inp) - j) ELSE 0
ErrorsAreLocated ==
    LET j == FirstFault
    IN  j > 0 => /\ Failed(st)
                 /\ j = 1 => VTTResult(st).err = "WebVTTHeaderError"
                 /\ j > 1 => /\ VTTResult(st).err = "WebVTTError"
                             /\ st.ctx = [i \in 1..Min(j, 5) |-> Tidied(Max(0, j - 5) + i)]
                                           \o [i \in 1..Following(j) |-> RTrim(Sym[inp[j + i]].b, {CR})]

RECURSIVE InputBytes(_)
InputBytes(j) == IF j > Len(inp) THEN <<>> ELSE Sym[inp[j]].b \o <<LF>> \o InputBytes(j + 1)

Emit == Emitting => PrintT(ToJson([in |-> InputBytes(1), x |-> VTTResult(st)]))
=============================================================================
