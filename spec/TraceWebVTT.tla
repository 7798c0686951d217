---------------------------- MODULE TraceWebVTT ----------------------------
(* Checks recorded runs of the real WebVTT reader against the machine.         *)
EXTENDS WebVTT, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES k, todo, st
vars == <<k, todo, st>>

Init == k = 1 /\ todo = (IF Len(Cases) > 0 THEN Lines(Cases[1].in) ELSE <<>>) /\ st = VTTStart

Line == /\ k <= Len(Cases) /\ todo # <<>>
        /\ st' = VTTReadLine(st, Head(todo)) /\ todo' = Tail(todo) /\ k' = k

Agrees(o, x) ==
    /\ o.err = x.err
    /\ x.err = "" => o.subs = x.subs
    /\ x.err # "" => o.msg = x.msg /\ o.ctx = x.ctx

Verdict == IF Agrees(Cases[k].obs, VTTResult(st)) THEN TRUE
           ELSE PrintT("MISMATCH " \o ToJson([id |-> Cases[k].id, x |-> VTTResult(st)]))

End == /\ k <= Len(Cases) /\ todo = <<>>
       /\ Verdict
       /\ k' = k + 1 /\ st' = VTTStart
       /\ todo' = IF k < Len(Cases) THEN Lines(Cases[k + 1].in) ELSE <<>>

Next == Line \/ End
View == <<k, Len(todo)>>
Done == k > Len(Cases) => PrintT("DONE " \o ToString(k - 1))
============================================================================
