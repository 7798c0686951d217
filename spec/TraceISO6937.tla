---------------------------- MODULE TraceISO6937 ----------------------------
(* Checks recorded histories of conversions, byte by byte and character by       *)
(* character.                                                                    *)
EXTENDS ISO6937, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES k, n, pos, d
vars == <<k, n, pos, d>>

Init == k = 1 /\ n = 1 /\ pos = 0 /\ d = DecStart

Op == Cases[k].ops[n]
Busy == k <= Len(Cases) /\ n <= Len(Cases[k].ops)

DecodeStep == /\ Busy /\ Op[1] = "d" /\ pos < Len(Op[2])
              /\ d' = DecByte(d, Op[2][pos + 1]) /\ pos' = pos + 1 /\ UNCHANGED <<k, n>>
EncodeStep == /\ Busy /\ Op[1] = "e" /\ pos < Len(Op[2])
              /\ d' = [d EXCEPT !.out = @ \o EncChar(Op[2][pos + 1])] /\ pos' = pos + 1 /\ UNCHANGED <<k, n>>

Got == Cases[k].obs.res[n]
Agrees == IF Op[1] = "d" THEN Got = d.out ELSE SameCode(Got) = d.out
Verdict == IF Cases[k].obs.err = "" /\ Agrees THEN TRUE
           ELSE PrintT("MISMATCH " \o ToJson([id |-> Cases[k].id, x |-> [n |-> n, want |-> d.out]]))
EndOp == /\ Busy /\ pos = Len(Op[2])
         /\ Verdict
         /\ n' = n + 1 /\ pos' = 0 /\ d' = DecStart /\ k' = k
End == /\ k <= Len(Cases) /\ n > Len(Cases[k].ops)
       /\ k' = k + 1 /\ n' = 1 /\ pos' = 0 /\ d' = DecStart

Next == DecodeStep \/ EncodeStep \/ EndOp \/ End
View == <<k, n, pos>>
Done == k > Len(Cases) => PrintT("DONE " \o ToString(k - 1))
=============================================================================
