---------------------------- MODULE MCConcurrent ----------------------------
(* Every schedule of up to Segments turns.                                        *)
EXTENDS Concurrent, Json

CONSTANTS Segments

\* the turns so far: whose, and how many steps
VARIABLES turns
vars == <<table, maker, pc, got, turns>>

Init == CInit /\ turns = <<>>
Last == turns[Len(turns)]
Turn(t) == IF turns # <<>> /\ Last[1] = t THEN [turns EXCEPT ![Len(turns)][2] = @ + 1] ELSE Append(turns, <<t, 1>>)
\* to wait is a step too, when it is one's turn, but only once
Wait(t) == Waiting(t) /\ (turns = <<>> \/ Last[1] # t) /\ UNCHANGED cvars
Next == \E t \in Threads : /\ (turns # <<>> /\ Last[1] = t) \/ Len(turns) < Segments
                           /\ Step(t) \/ Wait(t)
                           /\ turns' = Turn(t)
Spec == Init /\ [][Next]_vars

FairSpec == CInit /\ turns = <<>> /\ [][\E t \in Threads : Step(t) /\ UNCHANGED turns]_vars /\ \A t \in Threads : WF_vars(Step(t) /\ UNCHANGED turns)
AllEnd == <>(\A t \in Threads : pc[t] = "done")

Emit == (\A t \in Threads : pc[t] = "done") => PrintT(ToJson([turns |-> turns]))
=============================================================================
