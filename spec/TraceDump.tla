----------------------------- MODULE TraceDump -----------------------------
(* Checks recorded dumps of real readers against the specified dump of what the   *)
(* reader held.                                                                   *)
EXTENDS Dump, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES k
vars == <<k>>
Init == k = 1
Verdict(c) == LET x == DumpText(c.meta, c.raw) IN IF c.err = "" /\ c.dump = x THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([id |-> c.id, x |-> x]))
Next == k <= Len(Cases) /\ Verdict(Cases[k]) /\ k' = k + 1
View == k
Done == k > Len(Cases) => PrintT("DONE " \o ToString(k - 1))
=============================================================================
