---------------------------- MODULE TraceCollect ----------------------------
(* Checks recorded results of the real collect() against the machine: it is    *)
(* run over the fragments of each case, one step per fragment.                 *)
EXTENDS Collect, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES k, todo, out
vars == <<k, todo, out>>

Queue(n) == IF n <= Len(Cases) THEN Sorted(Cases[n].raw, <<>>) ELSE <<>>
Init == k = 1 /\ todo = Queue(1) /\ out = <<>>

Step == k <= Len(Cases) /\ todo # <<>> /\ out' = Take(out, Head(todo)) /\ todo' = Tail(todo) /\ k' = k

Agrees(o) == o.err = "" /\ o.col = out /\ \A i \in 1..Len(Cases[k].others) : Cases[k].others[i] = out
Verdict == IF Agrees(Cases[k].obs) THEN TRUE
           ELSE PrintT("MISMATCH " \o ToJson([id |-> Cases[k].id, x |-> out]))
End == k <= Len(Cases) /\ todo = <<>> /\ Verdict /\ k' = k + 1 /\ out' = <<>> /\ todo' = Queue(k + 1)

Next == Step \/ End
View == <<k, Len(todo)>>
Done == k > Len(Cases) => PrintT("DONE " \o ToString(k - 1))
=============================================================================
