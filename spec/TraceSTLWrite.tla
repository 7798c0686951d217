---------------------------- MODULE TraceSTLWrite ----------------------------
(* Checks files that the real writer wrote, and what the real reader read back.   *)
EXTENDS STLBinary, Json, IOUtils

CONSTANTS What       \* "file" or "back"

Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES k
vars == <<k>>
Init == k = 1

RECURSIVE LeastBlocks(_, _)
LeastBlocks(job, i) == IF i > Len(job.subs) THEN 0 ELSE LET B0 == BlockCounts(job.subs[i], job.V) IN (CHOOSE x \in B0 : \A y \in B0 : x <= y) + LeastBlocks(job, i + 1)

\* writing is refused when, and only when, there is no room
Refused(c) ==
    \/ \E i \in 1..Len(c.job.subs) : ~Fits(c.job.subs[i], c.job.V)
    \/ c.job.n > 100 /\ LeastBlocks(c.job, 1) * c.job.n > MostBlocks
MustRefuse(c) == \E i \in 1..Len(c.job.subs) : TooLong(c.job.subs[i], c.job.V)

Fault(c) ==
    IF c.obs.err # "" THEN (IF c.obs.err = "STLError" /\ Refused(c) THEN "" ELSE "error " \o c.obs.err)
    ELSE IF MustRefuse(c) THEN "not refused"
    ELSE IF c.job.n > 1 THEN (IF ~c.obs.same THEN "repetitions differ" ELSE RepeatedFault(c.obs.out, c.job, c.job.n, c.obs.size))
    ELSE IF What = "file" THEN
        (IF c.obs.again # <<>> /\ c.obs.again # c.obs.out THEN "not the same when written again" ELSE WellFormedFault(c.obs.out, c.job))
    ELSE RoundTripFault(c.job, c.obs.back)

Verdict(c) == LET f == Fault(c) IN IF f = "" THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([id |-> c.id, x |-> f]))
Next == k <= Len(Cases) /\ Verdict(Cases[k]) /\ k' = k + 1
View == k
Done == k > Len(Cases) => PrintT("DONE " \o ToString(k - 1))
=============================================================================
