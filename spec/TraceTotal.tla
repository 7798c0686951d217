----------------------------- MODULE TraceTotal -----------------------------
(* Checks recorded readings of arbitrary bytes: o from all of them, each of cuts  *)
(* from the first few lines.                                                      *)
EXTENDS Total, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES pos
vars == <<pos>>
Init == pos = 1

Why(r) == IF ~Outcome(r.fmt, r.o) THEN "outcome"
          ELSE IF \E i \in 1..Len(r.cuts) : ~Outcome(r.fmt, r.cuts[i]) THEN "outcome of some lines"
          ELSE IF \E i \in 1..Len(r.cuts) : ~Grows(r.cuts[i], r.o) THEN "what was read depends on what comes later"
          ELSE IF r.fds # 0 THEN "files left open"
          ELSE ""
Verdict(r) == IF Why(r) = "" THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([id |-> r.id, x |-> Why(r)]))
Next == pos <= Len(Cases) /\ Verdict(Cases[pos]) /\ pos' = pos + 1
View == pos
Done == pos > Len(Cases) => PrintT("DONE " \o ToString(pos - 1))
=============================================================================
