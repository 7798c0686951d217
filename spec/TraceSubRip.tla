---------------------------- MODULE TraceSubRip ----------------------------
(* Checks recorded runs of the real SubRip reader against the machine: each   *)
(* case's input is read line by line by SubRip's transitions, and at its end  *)
(* the recorded outcome must be the machine's.                                *)
EXTENDS SubRip, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES k, todo, st
vars == <<k, todo, st>>

Init == k = 1 /\ todo = (IF Len(Cases) > 0 THEN Lines(Cases[1].in) ELSE <<>>) /\ st = Start

Line == /\ k <= Len(Cases) /\ todo # <<>>
        /\ st' = ReadLine(st, Head(todo)) /\ todo' = Tail(todo) /\ k' = k

Agrees(o, x) ==
    /\ o.err = x.err
    /\ x.err = "" => o.subs = x.subs
    /\ x.err = "SubripError" => o.line = x.line /\ o.msg = x.msg /\ o.ctx = x.ctx

Verdict == IF Agrees(Cases[k].obs, Result(st)) THEN TRUE
           ELSE PrintT("MISMATCH " \o ToJson([id |-> Cases[k].id, x |-> Result(st)]))

End == /\ k <= Len(Cases) /\ todo = <<>>
       /\ Verdict
       /\ k' = k + 1 /\ st' = Start
       /\ todo' = IF k < Len(Cases) THEN Lines(Cases[k + 1].in) ELSE <<>>

Next == Line \/ End
View == <<k, Len(todo)>>
Done == k > Len(Cases) => PrintT("DONE " \o ToString(k - 1))
============================================================================
