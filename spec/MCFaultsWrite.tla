---------------------------- MODULE MCFaultsWrite ----------------------------
(* Every script of outcomes, every size of buffer and piece; and devices of every *)
(* size.                                                                          *)
EXTENDS Faults, Json

CONSTANTS MaxUnits, MaxBuf, MaxScript

VARIABLES units, piece, size, old, opens, script, cap, wr
vars == <<units, piece, size, old, opens, script, cap, wr>>

Scripts == UNION { [1..n -> {"o", "s", "n", "i"}] : n \in 0..MaxScript }
Image == [i \in 1..units |-> i]
Old == [i \in 1..old |-> -i]

\* cap: how many units fit on the device; without a script, it fails beyond that
Init == /\ units \in 1..MaxUnits /\ piece \in 1..2 /\ size \in 1..MaxBuf /\ old \in {0, MaxUnits + 1} /\ opens \in BOOLEAN
        /\ \/ script \in Scripts /\ cap = MaxUnits
           \/ script = <<>> /\ cap \in 0..MaxUnits
        /\ wr = [WBegin(Old, opens) EXCEPT !.todo = Image]

Outcome == IF wr.calls < Len(script) THEN script[wr.calls + 1] ELSE IF Len(wr.disk) + Len(wr.buf) > cap THEN (IF Len(wr.disk) + (Len(wr.buf) + 1) \div 2 <= cap /\ Len(wr.buf) > 1 THEN "s" ELSE "n") ELSE "o"

Put == /\ ~wr.over /\ wr.todo # <<>> /\ (wr.bad \/ Len(wr.buf) < size)
       /\ LET n == IF Len(wr.todo) < piece THEN Len(wr.todo) ELSE piece
          IN  wr' = IF wr.bad THEN [wr EXCEPT !.todo = <<>>]
                    ELSE [wr EXCEPT !.buf = @ \o SubSeq(wr.todo, 1, n), !.todo = SubSeq(@, n + 1, Len(@))]
Empty == ~wr.over /\ ~wr.bad /\ wr.buf # <<>> /\ (Len(wr.buf) >= size \/ wr.todo = <<>>) /\ wr' = Call(wr, Outcome)
Close == ~wr.over /\ wr.todo = <<>> /\ (wr.bad \/ wr.buf = <<>>) /\ wr' = [wr EXCEPT !.over = TRUE, !.error = wr.bad]
Next == (Put \/ Empty \/ Close) /\ UNCHANGED <<units, piece, size, old, opens, script, cap>>
Spec == Init /\ [][Next]_vars

\* the point of it all: no error, the whole file, and nothing else, is there
Honest == (wr.over /\ ~wr.error) => wr.disk = Image
\* and no error without a reason
Reason == (wr.over /\ wr.error) => (~opens \/ cap < units \/ \E i \in 1..Len(script) : script[i] \in {"n", "i"})
\* what is there is always a beginning of the file (or what was there before)
Beginning == IF opens THEN wr.disk = SubSeq(Image, 1, Len(wr.disk)) ELSE wr.disk = Old
\* it comes to an end
Ends == <>(wr.over)
Fair == Spec /\ WF_vars(Next)

Emit == (units = 1 /\ piece = 1 /\ size = 1 /\ opens /\ cap = MaxUnits /\ wr = [WBegin(Old, opens) EXCEPT !.todo = Image]) =>
            PrintT(ToJson([script |-> script, old |-> old]))
=============================================================================
