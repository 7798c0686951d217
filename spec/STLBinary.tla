------------------------------ MODULE STLBinary ------------------------------
(* Binary STL files: the reader as a machine over blocks, the writer, and what    *)
(* makes a written file well formed.                                              *)
EXTENDS Raw, ISO6937, STLTables

NewRow == 138        \* 8Ah
Unused == 143        \* 8Fh

Failure == [err |-> "STLError"]

(* ============================== reading ============================== *)

Sub(s, off, n) == SubSeq(s, off + 1, off + n)
Field(g, off, n) == LeadingInt(Sub(g, off, n))

\* what the header says, or Failure
ReadHeader(g) ==
    IF Len(g) < 1024 THEN Failure
    ELSE
    LET dfc == DFCOf(Sub(g, 3, 8))
        ds == Meaning(DisplayStandards, Sub(g, 11, 1))
        lg == Meaning(LanguageGroups, Sub(g, 12, 2))
        la == Meaning(Languages, Sub(g, 14, 2))
        tcs == Meaning(TimecodeStatuses, Sub(g, 255, 1))
        mnr == Field(g, 253, 2)
    IN  IF dfc = 0 \/ ds < 0 \/ lg < 0 \/ la < 0 \/ tcs < 0 THEN Failure
        ELSE [ err |-> "", rate |-> DFCs[dfc].rate,
               tti |-> Field(g, 238, 5),
               \* 99 means that the number of rows is not known
               rows |-> IF mnr = 99 THEN 12 ELSE mnr,
               fields |-> << Field(g, 0, 3), DFCs[dfc].field, ds, lg, la, Field(g, 238, 5), Field(g, 243, 5), Field(g, 248, 3),
                             Field(g, 251, 2), IF mnr = 99 THEN 12 ELSE mnr, tcs, Field(g, 272, 1), Field(g, 273, 1) >>,
               strings |-> << Sub(g, 16, 32), Sub(g, 48, 32), Sub(g, 80, 32), Sub(g, 112, 32), Sub(g, 144, 32), Sub(g, 176, 32),
                              Sub(g, 208, 16), Sub(g, 224, 6), Sub(g, 230, 6), Sub(g, 236, 2), Sub(g, 256, 8), Sub(g, 264, 8),
                              Sub(g, 274, 3), Sub(g, 277, 32), Sub(g, 309, 32), Sub(g, 341, 32) >> ]

\* the metadata that is reported, in order of name
Metadata(h) ==
    LET f == h.fields
        s == h.strings
        Of(name, v) == <<B(name), v>>
    IN << Of("Code page number", DecOf(f[1])), Of("Country of origin", s[13]), Of("Creation date", s[8]),
          Of("Disk sequence number", DecOf(f[13])), Of("Disks", DecOf(f[12])),
          Of("Display standard", Description(DisplayStandards, f[3])),
          Of("Editor contact details", s[16]), Of("Editor name", s[15]), Of("First in cue", s[12]),
          Of("Frame rate", DecOf(f[2])), Of("Language", Description(Languages, f[5])),
          Of("Language group", Description(LanguageGroups, f[4])),
          Of("Maximum characters", DecOf(f[9])), Of("Maximum rows", DecOf(f[10])),
          Of("Number of subtitles", DecOf(f[7])), Of("Original episode title", s[2]), Of("Original programme title", s[1]),
          Of("Publisher", s[14]), Of("Revision date", s[9]), Of("Revision number", s[10]), Of("Start of programme", s[11]),
          Of("Subtitle groups", DecOf(f[8])), Of("Subtitle list reference code", s[7]), Of("TTI blocks", DecOf(f[6])),
          Of("Timecode status", Description(TimecodeStatuses, f[11])), Of("Translated episode title", s[4]),
          Of("Translated programme title", s[3]), Of("Translator contact details", s[6]), Of("Translator name", s[5]) >>

\* a block of text
BlockOf(b) == [ ebn |-> b[4], tci |-> Sub(b, 5, 4), tco |-> Sub(b, 9, 4), vp |-> b[14], jc |-> b[15], cf |-> b[16],
                text |-> RTrim(Sub(b, 16, 112), {Unused}) ]

Timecode(t, rate) == <<t[1] * 3600 + t[2] * 60 + t[3], t[4], rate[1], rate[2]>>

(* The text of a row.  r: the fragment that would come next; codes set its style. *)
Colours == << <<0, 0, 0>>, <<255, 0, 0>>, <<0, 255, 0>>, <<255, 255, 0>>, <<0, 0, 255>>, <<255, 0, 255>>, <<0, 255, 255>>, White >>
Codes == TLCEval((0..7) \cup (128..131))
SetCode(r, c) ==
    CASE c <= 7 -> [r EXCEPT !.c = Colours[c + 1]]
      [] c = 128 -> SetItalic(r, 1)
      [] c = 129 -> SetItalic(r, 0)
      [] c = 130 -> SetUnderline(r, 1)
      [] c = 131 -> SetUnderline(r, 0)

\* m.out: fragments so far; m.r: style and bytes of the next one
PushB(m) == LET t == ToUtf8(Decode(m.r.t)) IN [out |-> IF t = <<>> THEN m.out ELSE Append(m.out, [m.r EXCEPT !.t = t]), r |-> [m.r EXCEPT !.t = <<>>]]

RECURSIVE RowBytes(_, _, _)
RowBytes(m, s, i) ==
    LET j == Find(s, i, Codes \cup {Unused})           \* all up to here is text
        p == PushB([m EXCEPT !.r.t = SubSeq(s, i, (IF j = 0 THEN Len(s) + 1 ELSE j) - 1)])
    IN  IF j = 0 \/ s[j] = Unused THEN p ELSE RowBytes([p EXCEPT !.r = SetCode(@, s[j])], s, j + 1)

\* all rows of a subtitle: the colour starts again in each, italic and underline carry on
RECURSIVE SubtitleRows(_, _, _, _)
SubtitleRows(out, base, rows, j) ==
    IF j > Len(rows) THEN out
    ELSE LET m == RowBytes([out |-> out, r |-> [base EXCEPT !.v[2] = <<@[1] + j - 1>>, !.c = White]], rows[j], 1)
         IN  SubtitleRows(m.out, [base EXCEPT !.s = m.r.s], rows, j + 1)

JustifiedTo(jc) == CASE jc = 1 -> Left [] jc = 3 -> Right [] OTHER -> Centre

\* st: h the header, whole the text of the current subtitle so far, left how many blocks are to come,
\* highest the largest row number, subs the fragments
BStart(h) == [err |-> "", h |-> h, whole |-> <<>>, left |-> h.tti, highest |-> 0, subs |-> <<>>]

ReadBlock(st, b) ==
    LET l == st.left - 1
    IN  IF b.cf \notin {0, 1} THEN [st EXCEPT !.err = "STLError"]
        ELSE IF b.cf = 1 THEN [st EXCEPT !.left = l]                              \* a comment
        ELSE IF b.ebn < 240 /\ l > 0 THEN [st EXCEPT !.left = l, !.whole = RTrim(@ \o b.text, {Unused})]     \* more text follows
        ELSE LET rows == Split(st.whole \o b.text, {NewRow})
                 base == [DefaultRaw EXCEPT !.f = Timecode(b.tci, st.h.rate), !.o = Timecode(b.tco, st.h.rate),
                                            !.v = <<Top, <<b.vp>>, <<st.h.rows>>, <<>>>>, !.h = <<JustifiedTo(b.jc), 0>>]
             IN  [st EXCEPT !.left = l, !.whole = <<>>, !.highest = Max(@, b.vp + Len(rows) - 1),
                            !.subs = SubtitleRows(@, base, rows, 1)]

\* when a row would be below the screen, everything is moved up
Shift(st) == IF st.highest > st.h.rows THEN st.highest - st.h.rows ELSE 0
BResult(st) ==
    IF st.err # "" THEN Failure
    ELSE [err |-> "", subs |-> TLCEval([i \in 1..Len(st.subs) |-> [st.subs[i] EXCEPT !.v[2] = <<@[1] - Shift(st)>>]]),
          fields |-> st.h.fields, strings |-> st.h.strings, meta |-> Metadata(st.h)]

RECURSIVE ReadBlocks(_, _, _)
ReadBlocks(st, bytes, off) ==
    IF st.err # "" \/ st.left <= 0 THEN st
    ELSE IF off + 128 > Len(bytes) THEN [st EXCEPT !.err = "STLError"]
    ELSE ReadBlocks(ReadBlock(st, BlockOf(Sub(bytes, off, 128))), bytes, off + 128)

STLBRead(bytes) ==
    LET h == ReadHeader(bytes)
    IN  IF h.err # "" THEN Failure ELSE BResult(ReadBlocks(BStart(h), bytes, 1024))

(* ============================== writing ============================== *)

ScreenRows == 23
MostPerSubtitle == 241       \* extension block numbers 00h to EFh, and the last one
MostBlocks == 99999          \* five digits

\* A writing job: subs, mhz (thousandths of a frame per second), lang, hdr (12 strings), rev, V
\* (positions on the screen are in units of 1/V).
RateOf(job) == DFCs[DFCFor(job.mhz)]

\* the whole numbers that n / d rounds to: two of them within a thousandth of a tie; d > 0
Nearest(n, d) ==
    LET q == n \div d        \* rounds down, also if n is negative
        r == n - q * d
        off == IF 2 * r < d THEN d - 2 * r ELSE 2 * r - d
    IN  IF off <= d \div 500 THEN {q, q + 1} ELSE IF 2 * r < d THEN {q} ELSE {q + 1}

\* the rows at which a line may be put

RowsFor(v, V) ==
    LET ref == IF v[1] < 0 THEN Top ELSE v[1]
        At1(n, d) == CASE ref = Top -> Nearest(n * ScreenRows, d)
                      [] ref = Middle -> Nearest(2 * n * ScreenRows + d * ScreenRows, 2 * d)
                      [] ref = Bottom -> Nearest((d - n) * ScreenRows, d)
                      [] OTHER -> {0}
    IN  IF v[4] # <<>> THEN At1(v[4][1], V)
        ELSE IF v[2] = <<>> THEN {0}
        ELSE IF v[3] = <<>> THEN {v[2][1]}
        ELSE At1(v[2][1], v[3][1])

\* all ways of placing lines i.. when the one before is at p (-1 if there is none): each
\* is at its row, or just below the one before it if that is lower
RECURSIVE Placements(_, _, _, _)
Placements(lines, V, i, p) ==
    IF i > Len(lines) THEN { <<>> }
    ELSE UNION { LET r == IF i > 1 /\ k <= p THEN p + 1 ELSE k
                 IN  { <<r>> \o rest : rest \in Placements(lines, V, i + 1, r) } : k \in RowsFor(lines[i].v, V) }

TopRows(s, V) == LET A == { RowsFor(s.l[i].v, V) : i \in 1..Len(s.l) }
                 IN  { t \in UNION A : \A S \in A : \E x \in S : x >= t }

\* the time codes that may be written for t: the nearest frame, carried over if it is the next second's
TimecodesFor(t, rate) ==
    LET exact == t[2] * t[4] * rate.rate[1]
        d == t[3] * rate.rate[2]
        Code(s, f) == << s \div 3600, (s \div 60) % 60, s % 60, f >>
    IN  { IF f >= rate.frames THEN Code(t[1] + 1, 0) ELSE Code(t[1], f) : f \in Nearest(exact, d) }

\* what the characters of a line of blocks should be, with italic and underline
RECURSIVE CharsOfBlocks(_, _)
CharsOfBlocks(bs, i) ==
    IF i > Len(bs) THEN <<>>
    ELSE LET u == Decode(Encode(Utf8(bs[i].t)))
         IN  [n \in 1..Len(u) |-> <<u[n], bs[i].s[2], bs[i].s[3]>>] \o CharsOfBlocks(bs, i + 1)
CharsOfLine(l) == CharsOfBlocks(l.b, 1)

RECURSIVE LineLength(_, _)
LineLength(bs, i) == IF i > Len(bs) THEN 0 ELSE Len(Utf8(bs[i].t)) + LineLength(bs, i + 1)
RECURSIVE Longest(_, _, _)
Longest(subs, i, j) ==
    IF i > Len(subs) THEN 0
    ELSE IF j > Len(subs[i].l) THEN Longest(subs, i + 1, 1)
    ELSE Max(LineLength(subs[i].l[j].b, 1), Longest(subs, i, j + 1))

PadR(s, n) == s \o [i \in 1..(n - Len(s)) |-> SPC]

\* the header's fields: <<offset, contents>>
HeaderFields(job, blocks, count) ==
    << <<0, B("850")>>, <<3, RateOf(job).code>>, <<11, B("0")>>, <<12, B("00")>>, <<14, CodeFor(Languages, job.lang)>>,
       <<16, PadR(job.hdr[1], 32)>>, <<48, PadR(job.hdr[2], 32)>>, <<80, PadR(job.hdr[3], 32)>>, <<112, PadR(job.hdr[4], 32)>>,
       <<144, PadR(job.hdr[5], 32)>>, <<176, PadR(job.hdr[6], 32)>>, <<208, [i \in 1..16 |-> 48]>>,
       <<224, job.hdr[7]>>, <<230, job.hdr[8]>>, <<236, Dec(job.rev, 2)>>,
       <<238, Dec(blocks, 5)>>, <<243, Dec(count, 5)>>, <<248, B("001")>>,
       <<251, Dec(Min(99, Longest(job.subs, 1, 1)), 2)>>, <<253, Dec(ScreenRows, 2)>>, <<255, B("1")>>,
       <<256, [i \in 1..16 |-> 48]>>, <<272, B("11")>>, <<274, job.hdr[9]>>,
       <<277, PadR(job.hdr[10], 32)>>, <<309, PadR(job.hdr[11], 32)>>, <<341, PadR(job.hdr[12], 32)>> >>

HeaderOK(out, job, blocks, count) ==
    LET H == HeaderFields(job, blocks, count) IN \A i \in 1..Len(H) : Sub(out, H[i][1], Len(H[i][2])) = H[i][2]

(* ---- the blocks of one subtitle ---- *)

\* the blocks that begin at block n (counting from 0) and belong together
RawBlock(out, n) == Sub(out, 1024 + 128 * n, 128)
RECURSIVE Extent(_, _)
Extent(out, n) == IF 1024 + 128 * (n + 1) > Len(out) THEN 0 ELSE IF out[1024 + 128 * n + 4] = 255 THEN n + 1 ELSE Extent(out, n + 1)

\* do the codes leave no style behind?
LastOf(t, set) == LET I == { i \in 1..Len(t) : t[i] \in set } IN IF I = {} THEN 0 ELSE t[CHOOSE i \in I : \A j \in I : j <= i]
SwitchedOff(t) == LastOf(t, {128, 129}) # 128 /\ LastOf(t, {130, 131}) # 130

RECURSIVE TextOf(_, _, _)
TextOf(out, n, e) == IF n = e THEN <<>> ELSE Sub(RawBlock(out, n), 16, 112) \o TextOf(out, n + 1, e)

JustificationOf(s) == CASE s.l[1].h[1] = Left -> 1 [] s.l[1].h[1] = Centre -> 2 [] s.l[1].h[1] = Right -> 3

\* what is wrong with the blocks n .. e - 1 as those of the subtitle s ("" if nothing is)
BlocksFault(out, n, e, s, job) ==
    LET whole == TextOf(out, n, e)
        body == RTrim(whole, {Unused})
        rows == Cardinality({ i \in 1..Len(body) : body[i] = NewRow }) + 1
    IN  CASE \E k \in n..(e - 1) : RawBlock(out, k)[4] # (IF k = e - 1 THEN 255 ELSE k - n) -> "extension block numbers"
          [] \E k \in n..(e - 1) : SubSeq(RawBlock(out, k), 1, 3) # SubSeq(RawBlock(out, n), 1, 3) -> "numbers of the subtitle"
          [] \E k \in n..(e - 1) : RawBlock(out, k)[5] # 0 -> "cumulative status"
          [] \E k \in n..(e - 1) : Sub(RawBlock(out, k), 5, 4) # Sub(RawBlock(out, n), 5, 4) \/ Sub(RawBlock(out, k), 9, 4) # Sub(RawBlock(out, n), 9, 4) -> "time codes differ between blocks"
          [] Sub(RawBlock(out, n), 5, 4) \notin TimecodesFor(s.f, RateOf(job)) -> "time code in"
          [] Sub(RawBlock(out, n), 9, 4) \notin TimecodesFor(s.o, RateOf(job)) -> "time code out"
          [] \E k \in n..(e - 1) : RawBlock(out, k)[14] # RawBlock(out, n)[14] -> "rows differ between blocks"
          [] RawBlock(out, n)[14] \notin TopRows(s, job.V) -> "top row"
          [] \E k \in n..(e - 1) : RawBlock(out, k)[15] # JustificationOf(s) -> "justification"
          [] \E k \in n..(e - 1) : RawBlock(out, k)[16] # 0 -> "comment flag"
          [] Len(body) = Len(whole) \/ whole[Len(body) + 1] # Unused -> "text not terminated"
          [] \E i \in 1..Len(body) : body[i] = Unused -> "end mark within the text"
          [] ~SwitchedOff(body) -> "style not switched off"
          [] rows \notin { IF P = <<>> THEN 1 ELSE P[Len(P)] - P[1] + 1 : P \in Placements(s.l, job.V, 1, -1) } -> "number of rows"
          [] OTHER -> ""

RECURSIVE SubsFault(_, _, _, _)
SubsFault(out, n, i, job) ==
    IF i > Len(job.subs) THEN (IF 1024 + 128 * n = Len(out) THEN "" ELSE "blocks left over")
    ELSE LET e == Extent(out, n)
         IN  IF e = 0 THEN "blocks missing"
             ELSE LET f == BlocksFault(out, n, e, job.subs[i], job) IN IF f # "" THEN f ELSE SubsFault(out, e, i + 1, job)

\* C13
WellFormedFault(out, job) ==
    CASE Len(out) < 1024 \/ (Len(out) - 1024) % 128 # 0 -> "size"
      [] ~HeaderOK(out, job, (Len(out) - 1024) \div 128, Len(job.subs)) -> "header"
      [] OTHER -> SubsFault(out, 0, 1, job)

\* ... of the job done n times in one file; out: its header and the blocks of the first time,
\* size: that of the file
RepeatedFault(out, job, n, size) ==
    LET one == (Len(out) - 1024) \div 128
    IN  CASE Len(out) < 1024 \/ (Len(out) - 1024) % 128 # 0 \/ size # 1024 + 128 * one * n -> "size"
          [] one * n > MostBlocks -> "not refused"
          [] ~HeaderOK(out, job, one * n, n * Len(job.subs)) -> "header"
          [] OTHER -> SubsFault(out, 0, 1, job)

(* ---- a writer ---- *)

RECURSIVE BlockBytes(_, _, _)
BlockBytes(bs, i, s) ==
    IF i > Len(bs) THEN [t |-> <<>>, s |-> s]
    ELSE LET b == bs[i].s
             codes == (IF b[3] # s[2] THEN <<131 - b[3]>> ELSE <<>>) \o (IF b[2] # s[1] THEN <<129 - b[2]>> ELSE <<>>)
             rest == BlockBytes(bs, i + 1, <<b[2], b[3]>>)
         IN  [t |-> codes \o Encode(Utf8(bs[i].t)) \o rest.t, s |-> rest.s]

RECURSIVE LineBytes(_, _, _, _)
LineBytes(lines, P, i, s) ==
    IF i > Len(lines) THEN (IF s[2] = 1 THEN <<131>> ELSE <<>>) \o (IF s[1] = 1 THEN <<129>> ELSE <<>>) \o <<Unused>>
    ELSE LET b == BlockBytes(lines[i].b, 1, s)
         IN  (IF i = 1 THEN <<>> ELSE [n \in 1..(P[i] - P[i - 1]) |-> NewRow]) \o b.t \o LineBytes(lines, P, i + 1, b.s)

RECURSIVE Chop(_, _, _, _)
Chop(head, tail, t, k) ==
    LET last == Len(t) <= 112
        now == IF last THEN t \o [i \in 1..(112 - Len(t)) |-> Unused] ELSE SubSeq(t, 1, 112)
    IN  head \o <<IF last THEN 255 ELSE k>> \o tail \o now \o (IF last THEN <<>> ELSE Chop(head, tail, From(t, 113), k + 1))

One(S) == CHOOSE x \in S : TRUE

(* ---- what there is room for ---- *)


\* more than the text of a subtitle can need, without looking at it closely
RECURSIVE Rough(_, _, _)
Rough(l, i, j) == IF i > Len(l) THEN 300 ELSE IF j > Len(l[i].b) THEN Rough(l, i + 1, 1) ELSE Len(l[i].b[j].t) + 2 + Rough(l, i, j + 1)

\* the numbers of blocks that a subtitle may take
BlockCounts(s, V) == { (Len(LineBytes(s.l, P, 1, <<0, 0>>)) + 111) \div 112 : P \in Placements(s.l, V, 1, -1) }
TooLong(s, V) == Rough(s.l, 1, 1) > 112 * MostPerSubtitle /\ \A n \in BlockCounts(s, V) : n > MostPerSubtitle
Fits(s, V) == Rough(s.l, 1, 1) <= 112 * MostPerSubtitle \/ \A n \in BlockCounts(s, V) : n <= MostPerSubtitle

RECURSIVE WriteSubs(_, _)
WriteSubs(job, i) ==
    IF i > Len(job.subs) THEN <<>>
    ELSE LET s == job.subs[i]
             P == One(Placements(s.l, job.V, 1, -1))
             tail == <<0>> \o One(TimecodesFor(s.f, RateOf(job))) \o One(TimecodesFor(s.o, RateOf(job))) \o <<One(TopRows(s, job.V)), JustificationOf(s), 0>>
         IN  Chop(<<1, 0, 0>>, tail, LineBytes(s.l, P, 1, <<0, 0>>), 0) \o WriteSubs(job, i + 1)

RECURSIVE PutFields(_, _, _)
PutFields(H, i, acc) == IF i > Len(H) THEN acc
    ELSE PutFields(H, i + 1, acc \o [n \in 1..(H[i][1] - Len(acc)) |-> 0] \o H[i][2])
STLBWrite(job) ==
    LET body == WriteSubs(job, 1)
        h == PutFields(HeaderFields(job, Len(body) \div 128, Len(job.subs)), 1, <<>>)
    IN  h \o [n \in 1..(1024 - Len(h)) |-> 0] \o body

(* ---- what is written is what is read back ---- *)

CharsOfFragment(r) == LET u == Utf8(r.t) IN [n \in 1..Len(u) |-> [c |-> <<u[n], r.s[2], r.s[3]>>, r |-> r]]
RECURSIVE CharsOfFragments(_, _)
CharsOfFragments(subs, i) == IF i > Len(subs) THEN <<>> ELSE CharsOfFragment(subs[i]) \o CharsOfFragments(subs, i + 1)

RECURSIVE CharsOfLines(_, _)
CharsOfLines(lines, i) == IF i > Len(lines) THEN <<>> ELSE LET c == CharsOfLine(lines[i]) IN [n \in 1..Len(c) |-> <<c[n], i>>] \o CharsOfLines(lines, i + 1)

\* what is wrong with the characters got[n ..] as those of subtitle i and later ones
RECURSIVE BackFault(_, _, _, _, _)
BackFault(job, got, n, i, shift) ==
    IF i > Len(job.subs) THEN (IF n > Len(got) THEN "" ELSE "characters left over")
    ELSE
    LET s == job.subs[i]
        want == CharsOfLines(s.l, 1)
        here == SubSeq(got, n, n + Len(want) - 1)
        Tc(t) == <<t[1] \div 3600, (t[1] \div 60) % 60, t[1] % 60, t[2]>>
        rate == RateOf(job)
        RowsFit(P) == \A k \in 1..Len(want) : here[k].r.v[2][1] - here[1].r.v[2][1] = P[want[k][2]] - P[want[1][2]]
        \* a subtitle whose lines come from the top down is where it was, but for the common shift
        Placed(P) == LET T == TopRows(s, job.V) IN P[1] \in T => here[1].r.v[2][1] = P[want[1][2]] - shift
    IN  CASE n + Len(want) - 1 > Len(got) -> "characters missing"
          [] \E k \in 1..Len(want) : here[k].c # want[k][1] -> "characters or their style"
          [] \E k \in 1..Len(want) : here[k].r.f[3] # rate.rate[1] \/ here[k].r.f[4] # rate.rate[2] \/ here[k].r.o[3] # rate.rate[1] \/ here[k].r.o[4] # rate.rate[2] -> "rate"
          [] \E k \in 1..Len(want) : Tc(here[k].r.f) \notin TimecodesFor(s.f, rate) \/ Tc(here[k].r.o) \notin TimecodesFor(s.o, rate) -> "times"
          [] \E k \in 1..Len(want) : here[k].r.h # <<s.l[1].h[1], 0>> -> "justification"
          [] \E k \in 1..Len(want) : here[k].r.v[1] # Top \/ here[k].r.v[3] # <<ScreenRows>> \/ here[k].r.s[1] # 0 -> "position or weight"
          [] want # <<>> /\ ~\E P \in Placements(s.l, job.V, 1, -1) : RowsFit(P) /\ Placed(P) -> "rows"
          [] OTHER -> BackFault(job, got, n + Len(want), i + 1, shift)

\* the largest row that may be needed decides how far up everything moves
RECURSIVE Bottoms(_, _, _)
Bottoms(job, i, sofar) ==
    IF i > Len(job.subs) THEN sofar
    ELSE LET s == job.subs[i]
             here == { t + P[Len(P)] - P[1] : <<t, P>> \in TopRows(s, job.V) \X Placements(s.l, job.V, 1, -1) }
         IN  Bottoms(job, i + 1, { Max(a, b) : <<a, b>> \in sofar \X here })
Shifts(job) == { Max(0, b - ScreenRows) : b \in Bottoms(job, 1, {0}) }

\* C14
RoundTripFault(job, back) ==
    IF back.err # "" THEN "cannot be read back"
    ELSE IF back.strings # << PadR(job.hdr[1], 32), PadR(job.hdr[2], 32), PadR(job.hdr[3], 32), PadR(job.hdr[4], 32), PadR(job.hdr[5], 32),
                              PadR(job.hdr[6], 32), [i \in 1..16 |-> 48], job.hdr[7], job.hdr[8], Dec(job.rev, 2), [i \in 1..8 |-> 48],
                              [i \in 1..8 |-> 48], job.hdr[9], PadR(job.hdr[10], 32), PadR(job.hdr[11], 32), PadR(job.hdr[12], 32) >> THEN "descriptive fields"
    ELSE IF back.fields[5] # job.lang \/ back.fields[2] # RateOf(job).field \/ back.fields[7] # Len(job.subs) THEN "language, rate or count"
    ELSE LET F == { BackFault(job, CharsOfFragments(back.subs, 1), 1, 1, c) : c \in Shifts(job) }
         IN  IF "" \in F THEN "" ELSE CHOOSE f \in F : TRUE
==============================================================================
