------------------------------ MODULE MCLocale ------------------------------
(* Every text of up to Depth chunks, read as a number under every locale.        *)
EXTENDS Locale, Json

CONSTANTS Depth

Chunks == <<<<49>>, <<53>>, <<46>>, <<44>>, <<217, 171>>, <<226, 128, 153>>, <<39>>, <<32>>>>

VARIABLES txt, size, loc, local, scan
vars == <<txt, size, loc, local, scan>>

Init == txt = <<>> /\ size = 0 /\ loc = "" /\ local = <<>> /\ scan = ScanStart
Type == loc = "" /\ size < Depth /\ \E i \in 1..Len(Chunks) : txt' = txt \o Chunks[i] /\ size' = size + 1 /\ UNCHANGED <<loc, local, scan>>
Convert == loc = "" /\ \E l \in DOMAIN Locales : loc' = l /\ local' = Localise(txt, Locales[l]) /\ UNCHANGED <<txt, size, scan>>
Read == loc # "" /\ ~scan.over /\ scan' = ScanStep(local, Locales[loc].mark, scan) /\ UNCHANGED <<txt, size, loc, local>>
Next == Type \/ Convert \/ Read
Spec == Init /\ [][Next]_vars

Short(v) == Len(Places(v)) <= 2 /\ Len(Digits(v, 1)) <= 4
\* under every locale, the value is what the text says
Same == (scan.over /\ Short(txt)) => Hundredths(scan) = Meaning(txt)
\* (the same number of digits, too)
AsFar == scan.over => scan.whole = Len(Digits(txt, 1)) /\ (IF scan.places < 0 THEN 0 ELSE scan.places) = Len(Places(txt))

Emit == loc = "" /\ size > 0 /\ IsDigit(txt[1]) /\ Short(txt) => PrintT(ToJson([in |-> txt, value |-> Meaning(txt), whole |-> Whole(txt)]))
=============================================================================
