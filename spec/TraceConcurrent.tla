--------------------------- MODULE TraceConcurrent ---------------------------
(* Jobs done together and alone: a case has for each thread what it observed      *)
(* (every different result, if the job was done several times) and what was       *)
(* observed when the same job was done alone.                                      *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES k
vars == <<k>>
Init == k = 1

Fault(c) ==
    CASE c.err = "hang" -> "did not end"
      [] c.err # "" -> "crashed, or there was a data race"
      [] \E i \in 1..Len(c.together) : Len(c.together[i]) # 1 -> "results differ from one time to the next"
      [] \E i \in 1..Len(c.together) : c.together[i][1] # c.alone[i] -> "another result than alone"
      [] OTHER -> ""

Verdict(c) == LET f == Fault(c) IN IF f = "" THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([id |-> c.id, x |-> f]))
Next == k <= Len(Cases) /\ Verdict(Cases[k]) /\ k' = k + 1
View == k
Done == k > Len(Cases) => PrintT("DONE " \o ToString(k - 1))
=============================================================================
