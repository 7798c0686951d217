------------------------------ MODULE Sources ------------------------------
(* Where bytes come from must not matter: lines of a file read piece by piece     *)
(* are the lines of the same bytes in memory; and which reader a file gets.       *)
EXTENDS Bytes

(* ---- a file is read in pieces: up to n bytes, or until a newline ---- *)

PieceEnd(s, i, n) == LET nl == Find(s, i, {LF})
                         full == Min(Len(s), i + n - 1)
                     IN  IF nl > 0 /\ nl <= full THEN nl ELSE full

\* f: [pos, line, lines]; pieces make up a line until one ends with a newline or the file ends
FStart == [pos |-> 1, line |-> <<>>, lines |-> <<>>]
FMore(s, f) == f.pos <= Len(s)
FRead(s, n, f) ==
    LET e == PieceEnd(s, f.pos, n)
        l == f.line \o SubSeq(s, f.pos, e)
    IN  IF s[e] = LF THEN [pos |-> e + 1, line |-> <<>>, lines |-> Append(f.lines, SubSeq(l, 1, Len(l) - 1))]
        ELSE IF e = Len(s) THEN [pos |-> e + 1, line |-> <<>>, lines |-> Append(f.lines, l)]
        ELSE [f EXCEPT !.pos = e + 1, !.line = l]

(* ---- which reader ---- *)

RECURSIVE LastOf(_, _, _)
LastOf(s, i, c) == IF i = 0 THEN 0 ELSE IF s[i] = c THEN i ELSE LastOf(s, i - 1, c)
\* the extension of the last part of a path, in lower case (the dot does not count as part of it)
Extension(path) ==
    LET name == From(path, LastOf(path, Len(path), 47) + 1)
        dot == LastOf(name, Len(name), 46)
    IN  IF dot = 0 THEN <<>> ELSE Lower(From(name, dot + 1))

\* the disk format code, bytes 3 to 10, is STLnn.mm in a binary file
IsBinary(head) == Len(head) >= 11 /\ SubSeq(head, 4, 6) = B("STL")

ReaderFor(path, head) ==
    LET e == Extension(path)
    IN  CASE e = B("srt") -> "srt"
          [] e = B("stl") -> IF IsBinary(head) THEN "stlb" ELSE "stlt"
          [] OTHER -> "none"
=============================================================================
