--------------------------- MODULE TraceSTLBinary ---------------------------
(* Checks recorded readings of binary STL files against the machine.              *)
EXTENDS STLBinary, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES k, off, st
vars == <<k, off, st>>

Begin(n) == IF n > Len(Cases) THEN [err |-> "none"]
            ELSE LET h == ReadHeader(Cases[n].in) IN IF h.err = "" THEN BStart(h) ELSE h

Init == k = 1 /\ off = 1024 /\ st = Begin(1)

Busy == k <= Len(Cases)
More == st.err = "" /\ st.left > 0
Block == /\ Busy /\ More
         /\ st' = IF off + 128 > Len(Cases[k].in) THEN [st EXCEPT !.err = "STLError"] ELSE ReadBlock(st, BlockOf(Sub(Cases[k].in, off, 128)))
         /\ off' = off + 128 /\ k' = k

Out == IF st.err # "" THEN Failure ELSE BResult(st)

\* fragments without text say nothing
Solid(subs) == SelectSeq(subs, LAMBDA r : r.t # <<>>)
Agrees == LET o == Cases[k].obs IN
          IF Out.err # "" THEN o.err = Out.err
          ELSE /\ o.err = ""
               /\ Solid(o.subs) = Out.subs
               /\ Cases[k].full = 1 => o.fields = Out.fields /\ o.strings = Out.strings /\ o.meta = Out.meta
Verdict == IF Agrees THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([id |-> Cases[k].id, x |-> Out]))
End == /\ Busy /\ ~More
       /\ Verdict
       /\ k' = k + 1 /\ off' = 1024 /\ st' = Begin(k + 1)

Next == Block \/ End
View == <<k, off>>
Done == k > Len(Cases) => PrintT("DONE " \o ToString(k - 1))
=============================================================================
