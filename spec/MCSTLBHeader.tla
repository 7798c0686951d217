---------------------------- MODULE MCSTLBHeader ----------------------------
(* Headers: a good one with any one (or two) of its fields replaced.              *)
EXTENDS STLBinary, Json

CONSTANTS Pairs      \* whether two fields are replaced at once

Base == PutFields(<< <<0, B("850")>>, <<3, B("STL25.01")>>, <<11, B("1")>>, <<12, B("00")>>, <<14, B("09")>>,
    <<16, PadR(B("Original programme"), 32)>>, <<48, PadR(B("Original episode"), 32)>>, <<80, PadR(B("Translated programme"), 32)>>,
    <<112, PadR(B("Translated episode"), 32)>>, <<144, PadR(B("Translator"), 32)>>, <<176, PadR(B("Translator contact"), 32)>>,
    <<208, B("Reference code 1")>>, <<224, B("140101")>>, <<230, B("150202")>>, <<236, B("07")>>, <<238, B("00000")>>, <<243, B("00012")>>, <<248, B("003")>>,
    <<251, B("38")>>, <<253, B("11")>>, <<255, B("1")>>, <<256, B("10203004")>>, <<264, B("10203105")>>, <<272, B("2")>>, <<273, B("3")>>,
    <<274, B("GBR")>>, <<277, PadR(B("Publisher"), 32)>>, <<309, PadR(B("Editor"), 32)>>, <<341, PadR(B("Editor contact"), 32)>> >>, 1, <<>>)

Ints2 == { B(s) : s \in {"00", "99", " 7", "7 ", "x1", "1x", "  ", "12"} }
R(off, values) == [off |-> off, v |-> values]
Names == { [i \in 1..32 |-> 64 + i], [i \in 1..32 |-> 32], [i \in 1..32 |-> (i * 37) % 256], [i \in 1..32 |-> 0] }
Fields == <<
    R(0, { B(s) : s \in {"437", "860", "   ", "00x", "x00"} }),
    R(3, { DFCs[i].code : i \in 1..Len(DFCs) } \cup { B(s) : s \in {"STL29.01", "stl25.01", "        "} }),
    R(11, { <<b>> : b \in 0..255 }),
    R(12, { B(s) : s \in {"00", "01", "02", "03", "04", "05", "U8", "u8", "  ", "10"} }),
    R(14, { Languages[i].code : i \in 1..Len(Languages) } \cup { B(s) : s \in {"2C", "44", "80", "0a", "  ", "FF"} }),
    R(16, Names), R(48, Names), R(80, Names), R(112, Names), R(144, Names), R(176, Names),
    R(208, { [i \in 1..16 |-> 50 + i], [i \in 1..16 |-> 0] }), R(224, { B("991231"), B("      ") }), R(230, { B("991231") }), R(236, Ints2),
    R(238, { B(s) : s \in {"00000", "    0", "-0001", "x0001", "     "} }),
    R(243, { B(s) : s \in {"00000", "99999", "   12", "12   ", "0x123", "-0012"} }),
    R(248, { B(s) : s \in {"000", "999", " 12", "abc"} }),
    R(251, Ints2), R(253, Ints2),
    R(255, { <<b>> : b \in 0..255 }),
    R(256, { B("23595924"), B("        ") }), R(264, { B("23595924"), [i \in 1..8 |-> 200 + i] }),
    R(272, { B(s) : s \in {"0", "9", " ", "x"} }), R(273, { B(s) : s \in {"0", "9", " ", "x"} }),
    R(274, { B("USA"), B("   "), <<0, 1, 255>> }), R(277, Names), R(309, Names), R(341, Names),
    R(373, { [i \in 1..100 |-> i] }) >>            \* spare bytes mean nothing

Put(g, off, v) == [i \in 1..Len(g) |-> IF i > off /\ i <= off + Len(v) THEN v[i - off] ELSE g[i]]
Whole == Base \o [i \in 1..(1024 - Len(Base)) |-> 32]

VARIABLES g, done
vars == <<g, done>>
Init == g = Whole /\ done = 0
Replace(i) == \E v \in Fields[i].v : g' = Put(g, Fields[i].off, v) /\ done' = i
Next == \/ done = 0 /\ \E i \in 1..Len(Fields) : Replace(i)
        \/ done > 0 /\ Pairs /\ \E i \in (done + 1)..Len(Fields) : done < 100 /\ Cardinality(Fields[i].v) <= 8 /\ Cardinality(Fields[done].v) <= 8
             /\ \E v \in Fields[i].v : g' = Put(g, Fields[i].off, v) /\ done' = 100
Spec == Init /\ [][Next]_vars

Out == STLBRead(g)

\* a field that is replaced changes what that field says (or whether the header is understood) and nothing else
Good == STLBRead(Whole)
Isolated == done \in 1..(Len(Fields) - 1) /\ Out.err = "" =>
    Cardinality({ i \in 1..13 : Out.fields[i] # Good.fields[i] } \cup { 100 + i : i \in { j \in 1..16 : Out.strings[j] # Good.strings[j] } }) <= 1
Sensible == Out.err = "" => Out.subs = <<>> /\ Len(Out.meta) = 29

Emit == PrintT(ToJson([g |-> g, x |-> Out]))
=============================================================================
