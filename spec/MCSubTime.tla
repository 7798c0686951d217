------------------------------ MODULE MCSubTime ------------------------------
(* All pairs (and triples) of times over a few seconds, frames and rates: the   *)
(* comparison of SubTime is a total order on times with rates, and every pair   *)
(* with its answers is printed to be put to the real operators.                 *)
EXTENDS SubTime, Json, SequencesExt

CONSTANTS Emitting, Laws

Rates == { <<24, 1>>, <<25, 1>>, <<30, 1>>, <<1000, 1>>, <<24000, 1001>>, <<30000, 1001>>, <<60000, 1001>>, <<50, 2>>, <<60, 1>> }
FramesFor(r) == LET top == (r[1] - 1) \div r[2] IN {0, 1, 2, 3, 12, top \div 2, (top + 1) \div 2, (2 * top) \div 3, top - 1, top} \cap 0..top

Rated == UNION { { <<s, f, r[1], r[2]>> : s \in {0, 1, 3600}, f \in FramesFor(r) } : r \in Rates }
Plain == { <<s, f, 0, 0>> : s \in {0, 1, 3600}, f \in {0, 1, 24} }
All == Rated \cup Plain

VARIABLES a, b
vars == <<a, b>>
Init == a \in All /\ b = <<>>
Next == b = <<>> /\ b' \in All /\ a' = a
Spec == Init /\ [][Next]_vars

Both == b # <<>>

\* C02 for the pair
Trichotomy ==
    Both /\ Comparable(a, b) => Cardinality({ o \in {"lt", "gt", "eq"} : Operators(a, b)[o] = "T" }) = 1
NotEqualIsNegation == Both /\ Comparable(a, b) => (Unequal(a, b) = "T") = (Equal(a, b) = "F")
Antisymmetric == Both => Less(a, b) = Greater(b, a) /\ Equal(a, b) = Equal(b, a)
RefusedNotGuessed == Both /\ ~Comparable(a, b) => Equal(a, b) = "U" /\ (a[1] = b[1] => Less(a, b) = "U")
\* the order is that of exact instants: products, where they fit
ExactOrder ==
    Both /\ HasRate(a) /\ HasRate(b) /\ a[1] = b[1] /\ a[3] < 20000 /\ b[3] < 20000 =>
        /\ Cmp(a, b) < 0 <=> a[2] * a[4] * b[3] < b[2] * b[4] * a[3]
        /\ Cmp(a, b) = 0 <=> a[2] * a[4] * b[3] = b[2] * b[4] * a[3]

Few == { t \in Rated : t[1] # 3600 }
Transitive ==
    Laws /\ Both /\ HasRate(a) /\ HasRate(b) /\ Cmp(a, b) <= 0 =>
        \A c \in Few : Cmp(b, c) <= 0 => Cmp(a, c) <= 0 /\ (Cmp(a, c) = 0 => Cmp(a, b) = 0 /\ Cmp(b, c) = 0)

Emit == Emitting /\ Both => PrintT(ToJson([a |-> a, b |-> b, x |-> Operators(a, b)]))
==============================================================================
