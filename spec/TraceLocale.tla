----------------------------- MODULE TraceLocale -----------------------------
(* The same thing done under several locales: a case has for each what was        *)
(* observed, the first one under "C".                                              *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES k
vars == <<k>>
Init == k = 1

Fault(c) ==
    LET A == c.all
        different == { i \in 2..Len(A) : A[i] # A[1] }
    IN  CASE \E i \in 1..Len(A) : A[i].err \in {"crash", "hang"} -> "crashed or did not end"
          [] Len(A) # Len(c.locs) -> "not done under every locale"
          [] different # {} -> "another result under " \o c.locs[CHOOSE i \in different : TRUE]
          [] OTHER -> ""

Verdict(c) == LET f == Fault(c) IN IF f = "" THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([id |-> c.id, x |-> f]))
Next == k <= Len(Cases) /\ Verdict(Cases[k]) /\ k' = k + 1
View == k
Done == k > Len(Cases) => PrintT("DONE " \o ToString(k - 1))
=============================================================================
