---------------------------- MODULE TraceSTLText ----------------------------
(* Checks recorded runs of the real text STL reader against the machine.       *)
EXTENDS STLText, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES k, todo, st
vars == <<k, todo, st>>

Init == k = 1 /\ todo = (IF Len(Cases) > 0 THEN Lines(Cases[1].in) ELSE <<>>) /\ st = STLTStart

Line == /\ k <= Len(Cases) /\ todo # <<>>
        /\ st' = STLTReadLine(st, Head(todo)) /\ todo' = Tail(todo) /\ k' = k

Verdict == IF Cases[k].obs.err = "" /\ Cases[k].obs.subs = st.subs THEN TRUE
           ELSE PrintT("MISMATCH " \o ToJson([id |-> Cases[k].id, x |-> STLTResult(st)]))

End == /\ k <= Len(Cases) /\ todo = <<>>
       /\ Verdict
       /\ k' = k + 1 /\ st' = STLTStart
       /\ todo' = IF k < Len(Cases) THEN Lines(Cases[k + 1].in) ELSE <<>>

Next == Line \/ End
View == <<k, Len(todo)>>
Done == k > Len(Cases) => PrintT("DONE " \o ToString(k - 1))
=============================================================================
