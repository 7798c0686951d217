--------------------------- MODULE MCTimingLines ---------------------------
(* Every timing line of SubRip or WebVTT that is at most Edits edits (of a     *)
(* token taken out, put in or changed) away from a right one.  The readers'    *)
(* machines are checked against a declarative account of which lines are right *)
(* and of what is wrong with the others, and each line is printed in a file,   *)
(* with what comes of it, to be replayed.                                      *)
EXTENDS WebVTT, Json

CONSTANTS Edits, Web, Few

Dot == IF Web THEN 46 ELSE 44
Tokens == << B("1"), B(":"), <<Dot>>, B(" "), B("x"), B("-->"), B("59"), B("-"), <<90 - Dot>>, B("Y:4"), B("+2"), B("08") >>
NewTokens == IF Few THEN 1..5 ELSE 1..Len(Tokens)

Times == <<7, 2, 12, 2, 1, 3, 7, 4, 6, 4, 1, 2, 7, 2, 12, 3, 1>>
Coordinates == <<4, 10, 4, 10, 4, 10, 4, 10>>
Bases == { Times, Times \o Coordinates, Times \o <<4>> }

VARIABLES toks, left
vars == <<toks, left>>

Init == toks \in Bases /\ left = Edits
Without1(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
With(s, i, t) == SubSeq(s, 1, i - 1) \o <<t>> \o SubSeq(s, i, Len(s))
Next == /\ left > 0
        /\ left' = left - 1
        /\ \/ \E i \in 1..Len(toks) : toks' = Without1(toks, i)
           \/ \E i \in 1..Len(toks) : \E t \in NewTokens : t # toks[i] /\ toks' = [toks EXCEPT ![i] = t]
           \/ \E i \in 1..Len(toks) + 1 : \E t \in NewTokens : toks' = With(toks, i, t)
Spec == Init /\ [][Next]_vars

RECURSIVE Spelt(_, _)
Spelt(s, i) == IF i > Len(s) THEN <<>> ELSE Tokens[s[i]] \o Spelt(s, i + 1)
(* ---- which lines are right ---- *)

\* the words of the line; a blank at its start is after an empty word
WordsOf(body) ==
    LET starts == {1} \cup { i \in 2..Len(body) : body[i] # SPC /\ body[i - 1] = SPC }
        Nth(k) == CHOOSE i \in starts : Cardinality({ j \in starts : j <= i }) = k
        Ends(i) == { j \in i..Len(body) : body[j] = SPC }
    IN  TLCEval([ k \in 1..Cardinality(starts) |->
            LET i == Nth(k)  e == Ends(i)
            IN  IF e = {} THEN From(body, i) ELSE SubSeq(body, i, (CHOOSE j \in e : \A m \in e : j <= m) - 1) ])

Number(f) == /\ f # <<>> /\ IsDigit(f[Len(f)])
             /\ \A i \in 1..Len(f) : IsDigit(f[i]) \/ (i = 1 /\ Len(f) > 1 /\ f[i] \in {43, 45})
RECURSIVE ValueOf(_, _)
ValueOf(f, i) == IF i = 0 THEN 0 ELSE IF IsDigit(f[i]) THEN f[i] - 48 + 10 * ValueOf(f, i - 1) ELSE 0
Value(f) == (IF f[1] = 45 THEN -1 ELSE 1) * ValueOf(f, Len(f))

\* the places of the marks, if there are as many as there should be and in their order
Colons(w) == { i \in 1..Len(w) : w[i] = 58 }
Marks(w) == { i \in 1..Len(w) : w[i] = Dot }
Fields(w) ==
    LET c1 == CHOOSE i \in Colons(w) : \A j \in Colons(w) : i <= j
        c2 == CHOOSE i \in Colons(w) : \A j \in Colons(w) : i >= j
        d == CHOOSE i \in Marks(w) : i > c2
    IN  << SubSeq(w, 1, c1 - 1), SubSeq(w, c1 + 1, c2 - 1), SubSeq(w, c2 + 1, d - 1), From(w, d + 1) >>
IsTime(w) == /\ Cardinality(Colons(w)) = 2
             /\ Cardinality({ i \in Marks(w) : \A j \in Colons(w) : i > j }) = 1
             /\ \A k \in 1..4 : Number(Fields(w)[k])
\* hours, minutes and seconds may be out of the range that they should be in
TimeSaid(w) == LET f == Fields(w) IN MsTime(Value(f[1]), Value(f[2]), Value(f[3]), Value(f[4]))

(* ---- and what the machines make of them ---- *)

Before == IF Web THEN << B("WEBVTT"), <<>> >> ELSE << B("7") >>
After == << B("some"), B("text") >>

RECURSIVE Through(_, _, _)
Through(st, ls, k) == IF k > Len(ls) THEN st ELSE Through(IF Web THEN VTTReadLine(st, ls[k]) ELSE ReadLine(st, ls[k]), ls, k + 1)
RECURSIVE Bytes(_, _)
Bytes(ls, k) == IF k > Len(ls) THEN <<>> ELSE ls[k] \o <<LF>> \o Bytes(ls, k + 1)

RightOnesAreReadAndWrongOnesQuoted ==
    LET line == TLCEval(Spelt(toks, 1))
        end == TLCEval(Through(IF Web THEN VTTStart ELSE Start, Before \o <<line>> \o After, 1))
        body == TLCEval(RTrim(line, {SPC}))
        words == WordsOf(body)
        \* the words that are wrong: the whole line if there are not the right number of them
        wrong == IF Len(words) \notin {3, 7} THEN <<body>>
                 ELSE IF ~IsTime(words[1]) THEN <<words[1]>>
                 ELSE IF ~IsTime(words[3]) THEN <<words[3]>>
                 ELSE <<>>
    IN  /\ IF Web /\ FindWord(line, 1, B("-->")) = 0 THEN
              \* to WebVTT this means nothing
              ~Failed(end) /\ end.subs = <<>>
           ELSE IF wrong # <<>> THEN
              Failed(end) /\ end.err[1].saw = wrong[1] /\ end.subs = <<>>
           ELSE
              /\ ~Failed(end)
              /\ Len(end.subs) = 2
              /\ \A i \in 1..2 : end.subs[i].f = TimeSaid(words[1]) /\ end.subs[i].o = TimeSaid(words[3])
        /\ PrintT(ToJson([in |-> Bytes(Before \o <<line>> \o After, 1), x |-> IF Web THEN VTTResult(end) ELSE Result(end)]))
============================================================================
