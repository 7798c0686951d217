------------------------------- MODULE Faults -------------------------------
(* Files that are cut short and devices that fail, for binary STL.               *)
(*                                                                                *)
(* Reading: a header and then as many blocks as it announces are fetched one      *)
(* after another; a fetch that cannot be satisfied ends everything.               *)
(*                                                                                *)
(* Writing: the pieces of the file are put into a buffer, which is emptied onto   *)
(* the device when it is full and when the file is closed.  Each of the device's  *)
(* outcomes is its own: all taken, some taken, or a failure.  A stream which has  *)
(* failed stays so and takes nothing more.  The state of the stream is looked at  *)
(* when the file has been closed.                                                 *)
EXTENDS Integers, Sequences, TLC

---------------------------------------------------------------------------
(* Reading; sizes in bytes *)
HeaderSize == 1024
BlockSize == 128
RBegin == [want |-> HeaderSize, from |-> 0, blocks |-> 0, over |-> FALSE, ok |-> FALSE]
\* have: bytes there are; announced: blocks
RFetch(have, announced, r) ==
    IF have - r.from < r.want THEN [r EXCEPT !.over = TRUE]
    ELSE LET n == IF r.want = HeaderSize THEN 0 ELSE r.blocks + 1
         IN  IF n = announced THEN [r EXCEPT !.over = TRUE, !.ok = TRUE, !.from = @ + r.want, !.blocks = n]
             ELSE [r EXCEPT !.from = @ + r.want, !.want = BlockSize, !.blocks = n]

---------------------------------------------------------------------------
(* Reading from a device with n units on it.  Each call gives at most as many as   *)
(* the portion whose turn it is; no unit from the limit on can be had (-1: all     *)
(* can), and neither can the news that there is no more.  Only a reader which has  *)
(* been told so, or has got all it needs, has done its work.                       *)
DBegin == [at |-> 0, calls |-> 0, over |-> FALSE, ok |-> FALSE]
DLeast(a, b) == IF a < b THEN a ELSE b
DCall(n, need, portions, limit, d) ==
    LET p == portions[(d.calls % Len(portions)) + 1]
        m == DLeast(p, n - d.at)
    IN  IF d.at >= need THEN [d EXCEPT !.over = TRUE, !.ok = TRUE]
        ELSE IF limit >= 0 /\ d.at >= limit THEN [d EXCEPT !.over = TRUE, !.calls = @ + 1]
        ELSE IF d.at = n THEN [d EXCEPT !.over = TRUE, !.ok = TRUE, !.calls = @ + 1]
        ELSE [d EXCEPT !.at = @ + (IF limit >= 0 THEN DLeast(m, limit - d.at) ELSE m), !.calls = @ + 1]

---------------------------------------------------------------------------
(* Writing; the file is pieces of several units each, 1..n in all *)
WBegin(old, opens) == [todo |-> <<>>, buf |-> <<>>, disk |-> IF opens THEN <<>> ELSE old, bad |-> ~opens, open |-> opens, over |-> FALSE, error |-> FALSE, calls |-> 0]

\* the device is asked to take x
Taken(x, outcome) == CASE outcome = "o" -> x [] outcome = "s" -> SubSeq(x, 1, (Len(x) + 1) \div 2) [] OTHER -> <<>>
\* one call with everything that is in the buffer
Call(w, outcome) ==
    LET x == Taken(w.buf, outcome)
    IN  IF outcome \in {"n", "i"} THEN [w EXCEPT !.bad = TRUE, !.calls = @ + 1]
        ELSE [w EXCEPT !.disk = @ \o x, !.buf = SubSeq(@, Len(x) + 1, Len(@)), !.calls = @ + 1]
=============================================================================
