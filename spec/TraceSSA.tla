------------------------------ MODULE TraceSSA ------------------------------
(* Checks recorded runs of the real SSA reader against the machine.            *)
EXTENDS SSA, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES k, todo, st
vars == <<k, todo, st>>

Init == k = 1 /\ todo = (IF Len(Cases) > 0 THEN Lines(Cases[1].in) ELSE <<>>) /\ st = SSAStart

Line == /\ k <= Len(Cases) /\ todo # <<>>
        /\ st' = SSAReadLine(st, Head(todo)) /\ todo' = Tail(todo) /\ k' = k

Agrees(o, x) == o.err = x.err /\ (x.err = "" => o.subs = x.subs)

Verdict == IF Agrees(Cases[k].obs, SSAResult(st)) THEN TRUE
           ELSE PrintT("MISMATCH " \o ToJson([id |-> Cases[k].id, x |-> SSAResult(st)]))

End == /\ k <= Len(Cases) /\ todo = <<>>
       /\ Verdict
       /\ k' = k + 1 /\ st' = SSAStart
       /\ todo' = IF k < Len(Cases) THEN Lines(Cases[k + 1].in) ELSE <<>>

Next == Line \/ End
View == <<k, Len(todo)>>
Done == k > Len(Cases) => PrintT("DONE " \o ToString(k - 1))
=============================================================================
