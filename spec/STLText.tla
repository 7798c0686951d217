------------------------------- MODULE STLText -------------------------------
(* The text STL reader as a state machine over lines.  The style is carried    *)
(* from line to line: sty is the fragment that would come next.                *)
EXTENDS Raw

STLTStart == [sty |-> [DefaultRaw EXCEPT !.v = <<TopOfSubtitle, <<0>>, <<>>, <<>>>>], subs |-> <<>>]

T_FontName == B("$FontName")    T_Bold == B("$Bold")          T_Italic == B("$Italic")
T_Underlined == B("$Underlined") T_FontSize == B("$FontSize") T_True == B("True")

Truth(v) == IF v = T_True THEN 1 ELSE 0

SetVariable(sty, name, v) ==
    CASE name = T_FontName -> [sty EXCEPT !.fn = <<v>>]
      [] name = T_Bold -> SetBold(sty, Truth(v))
      [] name = T_Italic -> SetItalic(sty, Truth(v))
      [] name = T_Underlined -> SetUnderline(sty, Truth(v))
      [] name = T_FontSize -> IF ParseInt(v).ok THEN [sty EXCEPT !.fs = <<"pt", ParseInt(v).v>>] ELSE sty
      [] OTHER -> sty

\* h:m:s:f as <<time>>, or <<>>
STLTTime(t) ==
    LET b == Split(t, {58})
    IN  IF Len(b) # 4 THEN <<>>
        ELSE LET n == TLCEval([i \in 1..4 |-> ParseInt(b[i])])
             IN  IF \E i \in 1..4 : ~n[i].ok THEN <<>>
                 ELSE << <<n[1].v * 3600 + n[2].v * 60 + n[3].v, n[4].v, 0, 0>> >>

PushT(st) == IF st.sty.t = <<>> THEN st ELSE [st EXCEPT !.subs = Append(@, st.sty), !.sty.t = <<>>]

Toggle(sty, c) ==
    CASE c = 66 -> SetBold(sty, 1 - sty.s[1])
      [] c = 73 -> SetItalic(sty, 1 - sty.s[2])
      [] c = 85 -> SetUnderline(sty, 1 - sty.s[3])
      [] OTHER -> sty

RECURSIVE STLTScan(_, _, _)
STLTScan(st, t, i) ==
    IF i > Len(t) THEN PushT(st)
    ELSE IF t[i] = 124 THEN LET p == PushT(st) IN STLTScan([p EXCEPT !.sty.v[2] = <<@[1] + 1>>], t, i + 1)
    ELSE IF t[i] = 94 THEN
        LET p == PushT(st) IN STLTScan(IF i < Len(t) THEN [p EXCEPT !.sty = Toggle(@, t[i + 1])] ELSE p, t, i + 2)
    ELSE STLTScan(TLCEval([st EXCEPT !.sty.t = Append(@, t[i])]), t, i + 1)

STLTNormal(st, l) ==
    LET c1 == Find(l, 1, {44})
        c2 == IF c1 = 0 THEN 0 ELSE Find(l, c1 + 1, {44})
    IN  IF c1 <= 2 \/ c2 = 0 \/ c2 = Len(l) THEN st
        ELSE
        LET from == STLTTime(Trim(SubSeq(l, 1, c1 - 1)))
            to == STLTTime(Trim(SubSeq(l, c1 + 1, c2 - 1)))
        IN  IF from = <<>> \/ to = <<>> THEN st
            ELSE STLTScan([st EXCEPT !.sty.f = from[1], !.sty.o = to[1], !.sty.v[2] = <<0>>], From(l, c2 + 1), 1)

STLTReadLine(st, raw) ==
    LET l == Trim(raw)
    IN  IF StartsWith(l, <<47, 47>>) THEN st
        ELSE IF l # <<>> /\ l[1] = 36 THEN
            LET bits == Split(l, {61})
            IN  IF Len(bits) # 2 THEN st ELSE [st EXCEPT !.sty = SetVariable(@, Trim(bits[1]), Trim(bits[2]))]
        ELSE STLTNormal(st, l)

RECURSIVE STLTReadLines(_, _, _)
STLTReadLines(st, ls, k) == IF k > Len(ls) THEN st ELSE STLTReadLines(STLTReadLine(st, ls[k]), ls, k + 1)

STLTResult(st) == [err |-> "", subs |-> st.subs]
STLTRead(bytes) == STLTResult(STLTReadLines(STLTStart, Lines(bytes), 1))
==============================================================================
