------------------------------- MODULE Total -------------------------------
(* What a reader may do with bytes that nobody has promised anything about: end   *)
(* with fragments of the kind that its format can give, or with one of its own    *)
(* errors; and what it has read does not depend on what comes after.              *)
EXTENDS Raw

Errors(fmt) == CASE fmt = "srt" -> {"SubripError", "SSAError"}      \* (SubRip may have SSA tags in it)
                 [] fmt = "vtt" -> {"WebVTTError", "WebVTTHeaderError"}
                 [] fmt = "ssa" -> {"SSAError"}
                 [] fmt = "stlt" -> {}
                 [] fmt = "stlb" -> {"STLError"}

Flag(x) == x \in {0, 1}
Ms(t) == t[3] = 1000 /\ t[4] = 1
Within(c) == \A i \in 1..3 : c[i] >= 0 /\ c[i] <= 255
Has(t, w) == FindWord(t, 1, w) > 0

\* nothing that the format cannot say
NoEffect(r) == r.e = "" /\ r.ec = <<>>
NoFades(r) == r.fu = <<>> /\ r.fd = <<>>
NoStyle(r) == r.s = <<0, 0, 0>> /\ r.c = White /\ NoEffect(r) /\ r.fn = <<>> /\ r.fs = NoSize
InTheMiddle(r) == r.h = <<Centre, 0>>
Row(r) == r.v[1] = TopOfSubtitle /\ r.v[2] # <<>> /\ r.v[2][1] >= 0 /\ r.v[3] = <<>> /\ r.v[4] = <<>>

Primary(x) == x \in {0, 255}

\* how the harness says that something is not a number, or infinite
NotFinite == -888888
Finite(r) == r.h[2] # NotFinite /\ r.fs[2] # NotFinite /\ (r.v[4] # <<>> => r.v[4][1] # NotFinite) /\ \A i \in 1..3 : r.c[i] # NotFinite

Disciplined(fmt, r) ==
    /\ Finite(r)
    /\ NoFades(r) /\ \A i \in 1..3 : Flag(r.s[i])
    /\ CASE fmt = "srt" -> /\ r.t # <<>> /\ ~Has(r.t, <<LF>>) /\ ~Has(r.t, LineSeparator)
                           /\ Ms(r.f) /\ Ms(r.o) /\ NoEffect(r) /\ r.fn = <<>> /\ r.fs[1] # "pt" /\ r.h[1] \in 0..2
                           \* (an SSA tag may put it somewhere else on the screen)
                           /\ r.v[1] \in 0..3 /\ r.v[2] # <<>> /\ r.v[2][1] >= 0 /\ r.v[3] = <<>> /\ (r.v[1] = TopOfSubtitle => r.v[4] = <<>> /\ r.h[1] = Centre)
         [] fmt = "vtt" -> ~Has(r.t, <<LF>>) /\ ~Has(r.t, LineSeparator) /\ Ms(r.f) /\ Ms(r.o) /\ NoStyle(r) /\ InTheMiddle(r) /\ Row(r)
         [] fmt = "ssa" -> /\ r.t # <<>> /\ \A c \in {LF, CR, 123, 92} : ~Has(r.t, <<c>>)
                           /\ r.f[4] = r.f[3] \div 1000 /\ r.o[4] = r.o[3] \div 1000          \* (if there was a column for it)
                           /\ r.e \in {"", "shadow"} /\ r.fs[1] = "pr" /\ r.h[1] \in 0..2
                           /\ r.v[1] \in 0..2 /\ r.v[2] = <<>> /\ r.v[3] = <<>> /\ r.v[4] # <<>>
         [] fmt = "stlt" -> /\ r.t # <<>> /\ \A c \in {LF, 124, 94} : ~Has(r.t, <<c>>)
                            /\ r.f[3] = 0 /\ r.o[3] = 0 /\ r.c = White /\ NoEffect(r) /\ r.fs[1] # "pr" /\ InTheMiddle(r) /\ Row(r)
         [] fmt = "stlb" -> /\ r.s[1] = 0 /\ NoEffect(r) /\ r.fn = <<>> /\ r.fs = NoSize /\ \A i \in 1..3 : Primary(r.c[i])
                            /\ r.h[1] \in 0..2 /\ r.h[2] = 0 /\ r.v[1] = Top /\ r.v[2] # <<>> /\ r.v[3] # <<>> /\ r.v[2][1] <= r.v[3][1] /\ r.v[4] = <<>>
                            /\ r.f[3] > 0 /\ <<r.f[3], r.f[4]>> = <<r.o[3], r.o[4]>>

AllDisciplined(fmt, subs) == /\ \A i \in 1..Len(subs) : Disciplined(fmt, subs[i])
                             \* one binary file has one rate and one number of rows
                             /\ fmt = "stlb" => \A i, j \in 1..Len(subs) : subs[i].v[3] = subs[j].v[3] /\ subs[i].f[3] = subs[j].f[3]

Outcome(fmt, o) == IF o.err = "" THEN AllDisciplined(fmt, o.subs) ELSE o.err \in Errors(fmt)

PrefixOf(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
\* o, read from all the lines, and c, from the first few of them
Grows(c, o) ==
    IF c.err = "" THEN o.err = "" => PrefixOf(c.subs, o.subs)
    ELSE o.err = c.err /\ ("msg" \in DOMAIN c => o.msg = c.msg) /\ ("line" \in DOMAIN c => o.line = c.line)
=============================================================================
