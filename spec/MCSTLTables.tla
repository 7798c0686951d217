----------------------------- MODULE MCSTLTables -----------------------------
(* Every lookup in the code tables, in both directions.                          *)
EXTENDS STLTables, Json

CONSTANTS AllPairs       \* whether two-byte codes are taken from all bytes

Tables == << [k |-> "language", t |-> Languages], [k |-> "group", t |-> LanguageGroups], [k |-> "standard", t |-> DisplayStandards],
             [k |-> "timecode", t |-> TimecodeStatuses], [k |-> "cumulative", t |-> CumulativeStatuses],
             [k |-> "justification", t |-> Justifications], [k |-> "comment", t |-> Comments] >>

SomeBytes == {0, 9, 32, 37, 46, 47, 85, 95, 120, 127, 128, 255} \cup (48..58) \cup (64..71) \cup (97..103)
Bytes2 == IF AllPairs THEN 0..255 ELSE SomeBytes
OneByte == { <<b>> : b \in 0..255 }
Odd == { <<>>, B("000"), B("09 "), B(" 09"), B("0"), B("9"), B("U"), B("U8 "), B("0x09") }

(* Everything one slip of a key away from what is right *)
Slips(s, with) == { s, s \o <<32>>, <<32>> \o s } \cup { SubSeq(s, 1, n) : n \in 0..Len(s) } \cup { SubSeq(s, n, Len(s)) : n \in 1..Len(s) }
                  \cup { [s EXCEPT ![i] = b] : i \in 1..Len(s), b \in with }
                  \cup { SubSeq(s, 1, i - 1) \o <<b>> \o SubSeq(s, i, Len(s)) : i \in 1..(Len(s) + 1), b \in {0, 32, 48, 49} }
                  \cup { [s EXCEPT ![i] = s[i + 1], ![i + 1] = s[i]] : i \in 1..(Len(s) - 1) }
FormatCodes == UNION { Slips(DFCs[i].code, 0..255) : i \in 1..Len(DFCs) } \cup
               { B("STL") \o <<48 + a, 48 + b, 46, 48 + x, 48 + y>> : a \in 0..9, b \in 0..9, x \in 0..1, y \in 0..9 }
DescriptionsNear == UNION { LET d == Description(Languages, m) IN Slips(d, {32, 101}) \cup { Lower(d) } : m \in 0..(Len(Languages) - 1) }

CodesOf(k) ==
    CASE k \in {"language", "group"} -> (Bytes2 \X Bytes2) \cup Odd \cup { <<b>> : b \in SomeBytes }
      [] k \in {"standard", "timecode"} -> OneByte \cup Odd
      [] OTHER -> OneByte

VARIABLES op
vars == <<op>>
Init == \/ \E i \in 1..Len(Tables) : \E c \in CodesOf(Tables[i].k) : op = [way |-> "read", i |-> i, code |-> c]
        \/ \E i \in 1..Len(Tables) : \E m \in 0..(Len(Tables[i].t) - 1) : op = [way |-> "write", i |-> i, m |-> m]
        \/ \E d \in DescriptionsNear : op = [way |-> "describe", d |-> d]
        \/ \E c \in FormatCodes \cup { B(s) : s \in {"STL23.02", "STL29.01", "STL25.1 ", "stl25.01", "STL50.01", "STL25.01 ", "        ", "STL25.00"} } \cup {<<>>} : op = [way |-> "dfc", code |-> c]
Next == FALSE /\ op' = op
Spec == Init /\ [][Next]_vars

T == Tables[op.i].t

\* C19: one meaning for each code, one code for each meaning, and descriptions find their meaning
OneToOne == op.way = "write" =>
    /\ Meaning(T, CodeFor(T, op.m)) = op.m
    /\ \A n \in 0..(Len(T) - 1) : n # op.m => CodeFor(T, n) # CodeFor(T, op.m) /\ Description(T, n) # Description(T, op.m)
    /\ Described(T, Description(T, op.m)) = op.m
Strict == op.way = "read" => (Meaning(T, op.code) = -1 <=> \A i \in 1..Len(T) : T[i].code # op.code)
RatesAgree == \A i \in 1..Len(DFCs) : DFCFor(DFCs[i].mhz) = i /\ DFCOf(DFCs[i].code) = i

Emit == PrintT(ToJson(
    CASE op.way = "read" -> [way |-> "read", k |-> Tables[op.i].k, code |-> op.code, v |-> Meaning(T, op.code)]
      [] op.way = "write" -> [way |-> "write", k |-> Tables[op.i].k, m |-> op.m, code |-> CodeFor(T, op.m), desc |-> Description(T, op.m)]
      [] op.way = "describe" -> [way |-> "describe", d |-> op.d, v |-> Described(Languages, op.d)]
      [] op.way = "dfc" -> [way |-> "dfc", code |-> op.code, mhz |-> IF DFCOf(op.code) = 0 THEN -1 ELSE DFCs[DFCOf(op.code)].mhz]))
==============================================================================
