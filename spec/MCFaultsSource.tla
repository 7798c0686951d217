--------------------------- MODULE MCFaultsSource ---------------------------
(* Sources of several sizes on a device which hands them over in portions of      *)
(* several kinds and fails at any of the units, at the end or never.              *)
EXTENDS Faults, Json

CONSTANTS Sizes,        \* each 10000 times the size and what is needed; that is more than the size if the reader must know the end
          Kinds         \* of portions

Portions(k) == CASE k = 0 -> <<100000>> [] k = 1 -> <<7, 130>> [] k = 2 -> <<1>> [] k = 3 -> <<4095, 1>>

VARIABLES n, need, portions, limit, rd
vars == <<n, need, portions, limit, rd>>

Init == /\ \E s \in Sizes : n = s \div 10000 /\ need = s % 10000
        /\ \E k \in Kinds : portions = Portions(k)
        /\ limit \in -1..n
        /\ rd = DBegin
Next == ~rd.over /\ rd' = DCall(n, need, portions, limit, rd) /\ UNCHANGED <<n, need, portions, limit>>
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Next)

\* never a success when something that is needed could not be had
Honest == rd.over => (rd.ok <=> limit < 0 \/ limit >= need)
\* a success means that all has been seen
Whole == rd.over /\ rd.ok => rd.at = n \/ rd.at >= need
\* nothing is had twice or beyond the end
Within == rd.at <= n /\ (limit >= 0 => rd.at <= limit)
Ends == <>(rd.over)

Emit == rd.over => PrintT(ToJson([n |-> n, need |-> need, portions |-> portions, limit |-> limit, ok |-> rd.ok]))
=============================================================================
