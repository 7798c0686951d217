---------------------------- MODULE TraceSources ----------------------------
(* The same bytes read from several sources: a case has the file's name and the   *)
(* beginning of its bytes, and for each source what was observed.                 *)
EXTENDS Sources, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES k
vars == <<k>>
Init == k = 1

Content(r) == [x \in DOMAIN r \ {"src", "fds"} |-> r[x]]
Fault(c) ==
    LET A == c.all
        want == ReaderFor(c.name, c.head)
    IN  CASE \E i \in 1..Len(A) : A[i].err \in {"crash", "hang"} -> "crashed or did not end"
          [] \E i \in 1..Len(A) : A[i].fds # 0 -> "left a file open"
          [] \E i \in 1..Len(A) : A[i].src = "factory" /\ (IF want = "none" THEN "null" \notin DOMAIN A[i]
                                                            ELSE "null" \in DOMAIN A[i] \/ (A[i].err = "" /\ A[i].kind # want)) -> "the wrong reader (should be " \o want \o ")"
          [] \E i \in 2..Len(A) : Content(A[i]) # Content(A[1]) -> "another result from another source"
          [] OTHER -> ""

Verdict(c) == LET f == Fault(c) IN IF f = "" THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([id |-> c.id, x |-> f]))
Next == k <= Len(Cases) /\ Verdict(Cases[k]) /\ k' = k + 1
View == k
Done == k > Len(Cases) => PrintT("DONE " \o ToString(k - 1))
=============================================================================
