------------------------------ MODULE MCTotal ------------------------------
(* Every text made of up to Depth chunks, whole or broken, of the things that a   *)
(* format is made of, after one of a few beginnings.                              *)
EXTENDS WebVTT, Total, Json

SS == INSTANCE SSA
ST == INSTANCE STLText

CONSTANTS Fmt, Begin, Depth

Nl == <<LF>>
Beginnings == [
    srt |-> << <<>>, B("1") \o Nl \o B("00:00:01,000 --> 00:00:02,000") \o Nl, B("1") \o Nl >>,
    vtt |-> << <<>>, B("WEBVTT") \o Nl \o Nl, B("WEBVTT") \o Nl \o Nl \o B("00:00:01.000 --> 00:00:02.000") \o Nl >>,
    ssa |-> << <<>>,
               B("[V4+ Styles]") \o Nl \o B("Format: Name, Fontsize, Bold") \o Nl \o B("Style: Default,20,-1") \o Nl \o B("[Events]") \o Nl \o B("Format: Start, End, Style, Text") \o Nl
                  \o B("Dialogue: 0:00:01.00,0:00:02.00,Default,"),
               B("[Events]") \o Nl \o B("Format: Start, Text") \o Nl >>,
    stlt |-> << <<>>, B("00:00:01:00,00:00:02:00,"), B("$Bold = True") \o Nl \o B("00:00:01:00,") >> ]
Chunks == [
    srt |-> <<Nl, B("1"), B("00:00:01,000"), B(" --> "), B("<i>"), B("</font>"), B("<font color='#ff0102'"), B(">"), B("{\\an8}"), LineSeparator, RTLEmbedding, <<0>>, BOM, <<CR>>, B("{\\"), B("<font")>>,
    vtt |-> <<Nl, B("WEBVTT"), B("NOTE"), B(" "), B("00:00:01.000"), B("-->"), B(":"), LineSeparator, <<0>>, BOM, <<CR>>, B("a"), <<255>>>>,
    ssa |-> <<Nl, B("[Events]"), B("Dialogue: "), B("0:00:03.00,"), B("{"), B("}"), B("\\"), B("N"), B("a"), B("pos(1,2)"), B("an8"), B("Format: "), B(","), B("c&H102030&"), B("fs1"), <<0>>, B(" ")>>,
    stlt |-> <<Nl, B("$Bold"), B("="), B("True"), B("00:00:01:00"), B(","), B("|"), B("^"), B("I"), B("//"), <<0>>, B(" "), B(":")>> ]

VARIABLES inp
vars == <<inp>>
Init == inp = <<>>
Next == Len(inp) < Depth /\ \E c \in 1..Len(Chunks[Fmt]) : inp' = Append(inp, c)
Spec == Init /\ [][Next]_vars

RECURSIVE Text(_)
Text(q) == IF q = <<>> THEN <<>> ELSE Chunks[Fmt][Head(q)] \o Text(Tail(q))
Input == Beginnings[Fmt][Begin] \o Text(inp)

ReadAs(bytes) == CASE Fmt = "srt" -> Read(bytes) [] Fmt = "vtt" -> VTTRead(bytes) [] Fmt = "ssa" -> SS!SSARead(bytes) [] Fmt = "stlt" -> ST!STLTRead(bytes)
Out == ReadAs(Input)

\* C23
Ends == Outcome(Fmt, Out)
\* the file up to the last newline but one
LastBreak == LET S == { i \in 1..(Len(Input) - 1) : Input[i] = LF } IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
Growing == Grows(ReadAs(SubSeq(Input, 1, LastBreak)), Out)

Emit == PrintT(ToJson([in |-> Input, x |-> Out]))
=============================================================================
