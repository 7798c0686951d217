---------------------------- MODULE MCFaultsRead ----------------------------
(* Files announcing 0..MaxBlocks blocks with any number of bytes, up to Surplus   *)
(* more than needed.                                                              *)
EXTENDS Faults, Json

CONSTANTS MaxBlocks, Surplus

VARIABLES have, announced, rd
vars == <<have, announced, rd>>

Init == \E n \in 0..MaxBlocks : announced = n /\ have \in 0..(HeaderSize + BlockSize * n + Surplus) /\ rd = RBegin
Next == ~rd.over /\ rd' = RFetch(have, announced, rd) /\ UNCHANGED <<have, announced>>
Spec == Init /\ [][Next]_vars

Needed == HeaderSize + BlockSize * announced
\* refused exactly if something is missing
Refused == rd.over => (rd.ok <=> have >= Needed)
\* nothing beyond what is needed is looked at
NotBeyond == rd.from <= Needed /\ rd.from <= have
\* every block, when it is not refused
All == rd.ok => rd.blocks = announced

Emit == rd.over => PrintT(ToJson([have |-> have, announced |-> announced, ok |-> rd.ok]))
=============================================================================
