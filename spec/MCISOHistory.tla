----------------------------- MODULE MCISOHistory -----------------------------
(* Histories of conversions in one process: the tables are made once, the first   *)
(* time either direction is used, and no result depends on what came before.      *)
EXTENDS ISO6937, Json

CONSTANTS Depth

Strings == << <<"d", <<65, 194, 101, 36>>>>, <<"d", <<193>>>>, <<"d", <<101>>>>, <<"d", <<166, 192, 216>>>>,
              <<"e", <<233, 36, 8211>>>>, <<"e", <<128512, 769, 8364>>>>, <<"e", <<501, 8222>>>>, <<"d", <<>>>> >>

VARIABLES made, hist, res
vars == <<made, hist, res>>

Result(op) == IF op[1] = "d" THEN Decode(op[2]) ELSE Encode(op[2])

Init == made = FALSE /\ hist = <<>> /\ res = <<>>
Convert(op) == /\ Len(hist) < Depth
               /\ made' = TRUE
               /\ hist' = Append(hist, op)
               \* what a conversion without tables would give cannot be observed
               /\ res' = Append(res, IF made' THEN Result(op) ELSE <<>>)
Next == \E i \in 1..Len(Strings) : Convert(Strings[i])
Spec == Init /\ [][Next]_vars

\* the k-th result depends on the k-th operation alone
Independent == \A k \in 1..Len(hist) : res[k] = Result(hist[k])
Emit == Len(hist) = Depth => PrintT(ToJson([ops |-> hist, x |-> res]))
================================================================================
