------------------------------- MODULE ISO6937 -------------------------------
(* ISO 6937 (the "Latin" table of EBU Tech 3264) and its conversion to and from *)
(* Unicode, as a machine over bytes.  The accent tables are those of the        *)
(* standard; each entry is the canonical composition of letter and accent.      *)
EXTENDS Bytes

HighCodes == <<
        <<161, 161>>, <<162, 162>>, <<163, 163>>, <<164, 36>>, <<165, 165>>, <<167, 167>>,
        <<168, 164>>, <<169, 8216>>, <<170, 8220>>, <<171, 171>>, <<172, 8592>>, <<173, 8593>>,
        <<174, 8594>>, <<175, 8595>>, <<176, 176>>, <<177, 177>>, <<178, 178>>, <<179, 179>>,
        <<180, 215>>, <<181, 181>>, <<182, 182>>, <<183, 183>>, <<184, 247>>, <<185, 8217>>,
        <<186, 8221>>, <<187, 187>>, <<188, 188>>, <<189, 189>>, <<190, 190>>, <<191, 191>>,
        <<208, 8213>>, <<209, 185>>, <<210, 174>>, <<211, 169>>, <<212, 8482>>, <<213, 9834>>,
        <<214, 172>>, <<215, 166>>, <<220, 8539>>, <<221, 8540>>, <<222, 8541>>, <<223, 8542>>,
        <<224, 8486>>, <<225, 198>>, <<226, 272>>, <<227, 170>>, <<228, 294>>, <<230, 306>>,
        <<231, 319>>, <<232, 321>>, <<233, 216>>, <<234, 338>>, <<235, 186>>, <<236, 222>>,
        <<237, 358>>, <<238, 330>>, <<239, 329>>, <<240, 312>>, <<241, 230>>, <<242, 273>>,
        <<243, 240>>, <<244, 295>>, <<245, 305>>, <<246, 307>>, <<247, 320>>, <<248, 322>>,
        <<249, 248>>, <<250, 339>>, <<251, 223>>, <<252, 254>>, <<253, 359>>, <<254, 331>>,
        <<255, 173>> >>

AccentTables == <<
    [b |-> 193, l |-> B("AEIOUaeiou"),   \* grave
     u |-> <<
        192, 200, 204, 210, 217, 224, 232, 236, 242, 249 >>],
    [b |-> 194, l |-> B("ACEILNORSUYZacegilnorsuyz"),   \* acute
     u |-> <<
        193, 262, 201, 205, 313, 323, 211, 340, 346, 218, 221, 377, 225, 263, 233, 501, 237, 314,
        324, 243, 341, 347, 250, 253, 378 >>],
    [b |-> 195, l |-> B("ACEGHIJOSUWYaceghijosuwy"),   \* circumflex
     u |-> <<
        194, 264, 202, 284, 292, 206, 308, 212, 348, 219, 372, 374, 226, 265, 234, 285, 293, 238,
        309, 244, 349, 251, 373, 375 >>],
    [b |-> 196, l |-> B("AINOUainou"),   \* tilde
     u |-> <<
        195, 296, 209, 213, 360, 227, 297, 241, 245, 361 >>],
    [b |-> 197, l |-> B("AEIOUaeiou"),   \* macron
     u |-> <<
        256, 274, 298, 332, 362, 257, 275, 299, 333, 363 >>],
    [b |-> 198, l |-> B("AGUagu"),   \* breve
     u |-> <<
        258, 286, 364, 259, 287, 365 >>],
    [b |-> 199, l |-> B("CEGIZcegz"),   \* dot
     u |-> <<
        266, 278, 288, 304, 379, 267, 279, 289, 380 >>],
    [b |-> 200, l |-> B("AEIOUYaeiouy"),   \* diaeresis
     u |-> <<
        196, 203, 207, 214, 220, 376, 228, 235, 239, 246, 252, 255 >>],
    [b |-> 202, l |-> B("AUau"),   \* ring
     u |-> <<
        197, 366, 229, 367 >>],
    [b |-> 203, l |-> B("CGKLNRSTcklnrst"),   \* cedilla
     u |-> <<
        199, 290, 310, 315, 325, 342, 350, 354, 231, 311, 316, 326, 343, 351, 355 >>],
    [b |-> 205, l |-> B("OUou"),   \* double acute
     u |-> <<
        336, 368, 337, 369 >>],
    [b |-> 206, l |-> B("AEIUaeui"),   \* ogonek
     u |-> <<
        260, 280, 302, 370, 261, 281, 371, 303 >>],
    [b |-> 207, l |-> B("CDELNRSTZcdelnrstz"),   \* caron
     u |-> <<
        268, 270, 282, 317, 327, 344, 352, 356, 381, 269, 271, 283, 318, 328, 345, 353, 357, 382 >>]>>

AccentCodes == 193..207

\* the character that a byte stands for on its own; 0 if there is none
Plain == TLCEval([b \in 0..255 |->
            IF b = 10 \/ b \in 32..126 THEN b
            ELSE IF \E i \in 1..Len(HighCodes) : HighCodes[i][1] = b
                 THEN HighCodes[CHOOSE i \in 1..Len(HighCodes) : HighCodes[i][1] = b][2]
                 ELSE 0])

\* the character that an accent and a byte stand for; 0 if there is none
Accented == TLCEval([a \in AccentCodes |-> [b \in 0..255 |->
               IF \E i \in 1..Len(AccentTables) : AccentTables[i].b = a /\ \E j \in 1..Len(AccentTables[i].l) : AccentTables[i].l[j] = b
               THEN LET i == CHOOSE i \in 1..Len(AccentTables) : AccentTables[i].b = a
                        j == CHOOSE j \in 1..Len(AccentTables[i].l) : AccentTables[i].l[j] = b
                    IN  AccentTables[i].u[j]
               ELSE 0]])

(* ---- decoding ---- *)

\* acc is the accent that waits for its letter (0 if there is none)
DecStart == [acc |-> 0, out |-> <<>>, ended |-> FALSE]

DecByte(d, b) ==
    IF d.ended THEN d
    ELSE IF b = 0 THEN [d EXCEPT !.ended = TRUE]          \* a NUL ends the string
    ELSE IF b \in AccentCodes THEN [d EXCEPT !.acc = b]
    ELSE LET c == IF d.acc # 0 THEN Accented[d.acc][b] ELSE Plain[b]
         IN  [d EXCEPT !.acc = 0, !.out = IF c = 0 THEN @ ELSE Append(@, c)]

RECURSIVE DecRange(_, _, _, _)
DecRange(d, s, i, j) ==
    IF i > j THEN d ELSE IF i = j THEN DecByte(d, s[i])
    ELSE LET m == (i + j) \div 2 IN DecRange(DecRange(d, s, i, m), s, m + 1, j)
DecBytes(d, s, i) == DecRange(d, s, i, Len(s))
Decode(s) == DecBytes(DecStart, s, 1).out

(* ---- encoding ---- *)

PlainCodes == { b \in 0..255 : Plain[b] # 0 }
AccentPairs == { p \in AccentCodes \X (65..122) : Accented[p[1]][p[2]] # 0 }

\* Every character that some bytes decode to, with the bytes.  ("$" has two codes;
\* 24h stands for both here: see SameCode.)
Direct == TLCEval([c \in { Plain[b] : b \in PlainCodes } |-> <<CHOOSE b \in PlainCodes : Plain[b] = c /\ \A x \in PlainCodes : Plain[x] = c => b <= x>>])
Paired == TLCEval([c \in { Accented[p[1]][p[2]] : p \in AccentPairs } |-> CHOOSE p \in AccentPairs : Accented[p[1]][p[2]] = c])
Carried == DOMAIN Direct \cup DOMAIN Paired

\* characters that have a stand-in
StandIn(c) ==
    CASE c = 8222 -> <<170>>                      \* low quote: opening quote
      [] c \in {8211, 8212} -> <<208>>            \* en and em dash: horizontal bar
      [] c \in {8208, 8209, 8210} -> <<45>>       \* hyphens and figure dash: hyphen
      [] c = 8242 -> <<39>>                       \* prime: apostrophe
      [] OTHER -> <<>>

EncChar(c) == IF c \in DOMAIN Direct THEN Direct[c] ELSE IF c \in DOMAIN Paired THEN Paired[c] ELSE StandIn(c)

\* (cut in halves so that long texts take no deep recursion)
RECURSIVE EncodeRange(_, _, _)
EncodeRange(s, i, j) ==
    IF i > j THEN <<>> ELSE IF i = j THEN EncChar(s[i])
    ELSE LET m == (i + j) \div 2 IN EncodeRange(s, i, m) \o EncodeRange(s, m + 1, j)
Encode(s) == EncodeRange(s, 1, Len(s))

\* "$" may be written either way
SameCode(s) == TLCEval([i \in 1..Len(s) |-> IF s[i] = 164 THEN 36 ELSE s[i]])

(* ---- UTF-8 ---- *)

Utf8Of(c) ==
    IF c < 128 THEN <<c>>
    ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
    ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>

RECURSIVE ToUtf8Range(_, _, _)
ToUtf8Range(s, i, j) ==
    IF i > j THEN <<>> ELSE IF i = j THEN Utf8Of(s[i])
    ELSE LET m == (i + j) \div 2 IN ToUtf8Range(s, i, m) \o ToUtf8Range(s, m + 1, j)
ToUtf8(s) == ToUtf8Range(s, 1, Len(s))

\* of valid UTF-8
RECURSIVE Utf8From(_, _)
Utf8From(s, i) ==
    IF i > Len(s) THEN <<>>
    ELSE IF s[i] < 128 THEN <<s[i]>> \o Utf8From(s, i + 1)
    ELSE IF s[i] < 224 THEN <<(s[i] - 192) * 64 + (s[i + 1] - 128)>> \o Utf8From(s, i + 2)
    ELSE IF s[i] < 240 THEN <<(s[i] - 224) * 4096 + (s[i + 1] - 128) * 64 + (s[i + 2] - 128)>> \o Utf8From(s, i + 3)
    ELSE <<(s[i] - 240) * 262144 + (s[i + 1] - 128) * 4096 + (s[i + 2] - 128) * 64 + (s[i + 3] - 128)>> \o Utf8From(s, i + 4)
Utf8(s) == Utf8From(s, 1)
==============================================================================
