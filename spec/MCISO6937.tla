------------------------------ MODULE MCISO6937 ------------------------------
(* Decoding, over every byte string up to Depth of an alphabet, and encoding    *)
(* over strings of characters; the laws that conversion obeys.                  *)
EXTENDS ISO6937, Json

CONSTANTS Mode, Depth

\* one or two of each kind of byte: end, control, plain, letters of several accents,
\* unassigned, two codes for $, accents
FewBytes == {0, 10, 31, 32, 36, 65, 101, 103, 122, 127, 128, 160, 164, 166, 192, 193, 194, 203, 207, 208, 216, 229, 255}
AllBytes == 0..255 \ {201, 204}       \* (C9h and CCh have had several meanings)

Alphabet == IF Mode = "few" THEN FewBytes ELSE AllBytes

\* characters: carried, with stand-ins, and neither
FewChars == {10, 36, 65, 101, 233, 305, 501, 768, 769, 8213, 8222, 8211, 8209, 8242, 8217, 9, 127, 160, 1024, 8364, 128512}

VARIABLES inp, d
vars == <<inp, d>>

Init == inp = <<>> /\ d = DecStart
NextD == Len(inp) < Depth /\ \E b \in Alphabet : inp' = Append(inp, b) /\ d' = DecByte(d, b)
NextE == Len(inp) < Depth /\ \E c \in FewChars : inp' = Append(inp, c) /\ d' = d
Next == IF Mode = "chars" THEN NextE ELSE NextD
Spec == Init /\ [][Next]_vars

(* ---- laws of decoding ---- *)

\* by position: every byte that is not an accent yields one character or none
RECURSIVE ByPosition(_, _)
ByPosition(s, i) ==
    IF i > Len(s) \/ s[i] = 0 THEN <<>>
    ELSE LET c == IF s[i] \in AccentCodes THEN 0
                  ELSE IF i > 1 /\ s[i - 1] \in AccentCodes THEN Accented[s[i - 1]][s[i]] ELSE Plain[s[i]]
         IN  (IF c = 0 THEN <<>> ELSE <<c>>) \o ByPosition(s, i + 1)

Decoding == Mode # "chars"
DecodeByPosition == Decoding => d.out = ByPosition(inp, 1)
NoNul == \A i \in 1..Len(d.out) : d.out[i] # 0
DecodeConcatenates ==
    Decoding => \A k \in 1..Len(inp) :
        inp[k] \notin AccentCodes /\ (\A i \in 1..k : inp[i] # 0)
            => d.out = Decode(SubSeq(inp, 1, k)) \o Decode(From(inp, k + 1))
\* what is decoded survives being encoded and decoded again
Reencodes == Decoding => Decode(Encode(d.out)) = d.out

(* ---- laws of encoding ---- *)

InverseOn(c) == IF c \in Carried THEN Decode(EncChar(c)) = <<c>> ELSE Len(Decode(EncChar(c))) <= 1
RightInverse == inp = <<>> => \A c \in Carried \cup FewChars : InverseOn(c)
EncodeConcatenates == ~Decoding => \A k \in 0..Len(inp) : Encode(inp) = Encode(SubSeq(inp, 1, k)) \o Encode(From(inp, k + 1))
EncodeNoNul == ~Decoding => \A i \in 1..Len(Encode(inp)) : Encode(inp)[i] # 0

Emit ==
    CASE Mode = "few" -> PrintT(ToJson([d |-> inp, x |-> d.out]))
      [] Mode = "all" -> Len(inp) = Depth => PrintT(ToJson([p |-> inp, x |-> [b \in 0..255 |-> DecByte(d, b).out]]))
      [] Mode = "chars" -> IF inp = <<>> THEN PrintT(ToJson([table |-> { <<c, EncChar(c)>> : c \in Carried \cup {8222, 8211, 8212, 8208, 8209, 8210, 8242} }]))
                           ELSE PrintT(ToJson([e |-> inp, x |-> Encode(inp)]))
==============================================================================
