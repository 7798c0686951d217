------------------------------- MODULE Locale -------------------------------
(* Numbers in subtitle files are written with a full stop, whatever the locale   *)
(* of the process; the C library reads numbers with the decimal mark of the      *)
(* locale.  What the library does about this (raw_convert): the text up to the   *)
(* locale's own mark, with full stops replaced by that mark, is given to the C   *)
(* library.                                                                       *)
(*                                                                                *)
(* A locale is its decimal mark and thousands separator, as bytes.               *)
EXTENDS Bytes

Stop == <<46>>
Locales == [C |-> [mark |-> <<46>>, sep |-> <<>>],
            de |-> [mark |-> <<44>>, sep |-> <<46>>],
            fr |-> [mark |-> <<44>>, sep |-> <<226, 128, 175>>],
            ch |-> [mark |-> <<46>>, sep |-> <<226, 128, 153>>],
            ps |-> [mark |-> <<217, 171>>, sep |-> <<217, 172>>],
            odd |-> [mark |-> <<39>>, sep |-> <<44>>]]

RECURSIVE ReplaceStops(_, _)
ReplaceStops(v, mark) == IF v = <<>> THEN <<>> ELSE (IF v[1] = 46 THEN mark ELSE <<v[1]>>) \o ReplaceStops(Tail(v), mark)

Localise(v, l) ==
    IF l.mark = Stop THEN v
    ELSE LET i == FindWord(v, 1, l.mark)
         IN  ReplaceStops(IF i = 0 THEN v ELSE SubSeq(v, 1, i - 1), l.mark)

---------------------------------------------------------------------------
(* The C library, one step at a time.  State: where it is, how many digits it has *)
(* seen before and after the mark, the value so far in units of the last digit,   *)
(* and whether it has stopped.                                                    *)
ScanStart == [at |-> 1, whole |-> 0, places |-> -1, value |-> 0, over |-> FALSE]
ScanStep(v, mark, s) ==
    IF s.at > Len(v) THEN [s EXCEPT !.over = TRUE]
    ELSE IF IsDigit(v[s.at]) THEN [s EXCEPT !.at = @ + 1, !.value = @ * 10 + (v[s.at] - 48), !.whole = IF s.places < 0 THEN @ + 1 ELSE @,
                                            !.places = IF @ < 0 THEN @ ELSE @ + 1]
    ELSE IF s.places < 0 /\ s.whole > 0 /\ At(v, s.at, mark) THEN [s EXCEPT !.at = @ + Len(mark), !.places = 0]
    ELSE [s EXCEPT !.over = TRUE]
RECURSIVE ScanOn(_, _, _)
ScanOn(v, mark, s) == IF s.over THEN s ELSE ScanOn(v, mark, ScanStep(v, mark, s))
Scan(v, mark) == ScanOn(v, mark, ScanStart)

\* in hundredths (of at most two places)
Hundredths(s) == CASE s.places < 1 -> s.value * 100 [] s.places = 1 -> s.value * 10 [] s.places = 2 -> s.value

---------------------------------------------------------------------------
(* What a number means to someone who has never heard of locales: its digits up  *)
(* to the first character that is not one, and if that is a full stop the digits *)
(* after it.                                                                      *)
RECURSIVE Digits(_, _)
Digits(v, i) == IF i <= Len(v) /\ IsDigit(v[i]) THEN <<v[i]>> \o Digits(v, i + 1) ELSE <<>>
RECURSIVE NumberOf(_)
NumberOf(ds) == IF ds = <<>> THEN 0 ELSE NumberOf(SubSeq(ds, 1, Len(ds) - 1)) * 10 + ds[Len(ds)] - 48
Whole(v) == NumberOf(Digits(v, 1))
Places(v) == LET n == Len(Digits(v, 1)) IN IF n > 0 /\ n < Len(v) /\ v[n + 1] = 46 THEN Digits(v, n + 2) ELSE <<>>
Meaning(v) == LET p == Places(v) IN Whole(v) * 100 + (CASE p = <<>> -> 0 [] Len(p) = 1 -> 10 * NumberOf(p) [] OTHER -> NumberOf(SubSeq(p, 1, 2)))
=============================================================================
