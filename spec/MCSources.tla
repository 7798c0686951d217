----------------------------- MODULE MCSources -----------------------------
(* Every content of up to Depth bytes of some kinds, read in pieces of every    *)
(* size up to Depth + 1.                                                          *)
EXTENDS Sources, Json

CONSTANTS Depth, Bytes

VARIABLES inp, n, f
vars == <<inp, n, f>>

Init == inp = <<>> /\ n = 0 /\ f = FStart
Type == n = 0 /\ Len(inp) < Depth /\ \E c \in Bytes : inp' = Append(inp, c) /\ UNCHANGED <<n, f>>
Open == n = 0 /\ \E k \in 1..(Depth + 1) : n' = k /\ UNCHANGED <<inp, f>>
Piece == n > 0 /\ FMore(inp, f) /\ f' = FRead(inp, n, f) /\ UNCHANGED <<inp, n>>
Next == Type \/ Open \/ Piece
Spec == Init /\ [][Next]_vars

\* the end: the same lines as from memory
Same == (n > 0 /\ ~FMore(inp, f)) => f.lines = Lines(inp)
\* what has been read is always a beginning of that
Prefix == n > 0 => f.lines = SubSeq(Lines(inp), 1, Len(f.lines))

(* As the text of a cue, up to the first blank line, these are rows *)
T(l) == RTrim(l, {LF, CR})
RECURSIVE Rows(_, _)
Rows(ls, i) == IF i > Len(ls) \/ T(ls[i]) = <<>> THEN <<>> ELSE <<T(ls[i])>> \o Rows(ls, i + 1)
\* (nothing comes after a blank line)
IsText == LET ls == Lines(inp) IN \A i, j \in 1..Len(ls) : i < j /\ T(ls[i]) = <<>> => T(ls[j]) = <<>>

Emit == n = 0 /\ IsText => PrintT(ToJson([in |-> inp, rows |-> Rows(Lines(inp), 1)]))
=============================================================================
