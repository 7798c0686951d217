-------------------------------- MODULE WebVTT --------------------------------
(* The WebVTT reader as a state machine over lines.                            *)
EXTENDS SubRip

\* mode   header | data | cue | note
VTTStart == [mode |-> "header", rs |-> Fresh, subs |-> <<>>, ctx |-> <<>>, err |-> <<>>, extra |-> 0]

L_WEBVTT == B("WEBVTT")
L_NOTE == B("NOTE")
L_arrow == B("-->")

IsNote(l) == l = L_NOTE \/ StartsWith(l, L_NOTE \o <<32>>) \/ StartsWith(l, L_NOTE \o <<9>>)
IsTiming(l) == FindWord(l, 1, L_arrow) > 0

VTTError(st, saw, want, extra) ==
    [st EXCEPT !.err = <<[saw |-> saw, want |-> want]>>, !.extra = extra, !.mode = "failed"]

VTTTiming(st, l0) ==
    LET l == RTrim(l0, {SPC})
        p == SplitRuns(l, {SPC})
    IN  IF Len(p) \notin {3, 7} THEN VTTError(st, l, B("a time line"), 2)
        ELSE
        LET from == ParseTime(p[1], 46)
            to == ParseTime(p[3], 46)
        IN  IF ~from.ok THEN VTTError(st, p[1], from.want, 0)
            ELSE IF ~to.ok THEN VTTError(st, p[3], to.want, 0)
            ELSE [st EXCEPT !.rs = [Fresh EXCEPT !.f = from.t, !.o = to.t], !.mode = "cue"]

RECURSIVE VTTRows(_, _, _)
VTTRows(st, parts, k) ==
    IF k > Len(parts) THEN st
    ELSE VTTRows([st EXCEPT !.subs = Append(@, [st.rs EXCEPT !.t = parts[k]]), !.rs.v[2] = <<@[1] + 1>>], parts, k + 1)

VTTReadLine(st, raw) ==
    IF Failed(st) THEN
        IF st.extra > 0 THEN [st EXCEPT !.ctx = Append(@, RTrim(raw, {LF, CR})), !.extra = @ - 1] ELSE st
    ELSE
    LET l == Tidy(raw)
        st1 == [st EXCEPT !.ctx = Remember(@, l)]
    IN  CASE st.mode = "header" ->
                IF StartsWith(l, L_WEBVTT) THEN [st1 EXCEPT !.mode = "data"]
                ELSE [st1 EXCEPT !.err = <<[header |-> TRUE]>>, !.ctx = <<>>, !.mode = "failed"]
          [] st.mode = "data" ->
                IF IsNote(l) THEN [st1 EXCEPT !.mode = "note"]
                ELSE IF IsTiming(l) THEN VTTTiming(st1, l)
                ELSE st1
          [] st.mode = "cue" ->
                IF l = <<>> THEN [st1 EXCEPT !.mode = "data"] ELSE VTTRows(st1, SplitWord(l, LineSeparator), 1)
          [] st.mode = "note" -> IF l = <<>> THEN [st1 EXCEPT !.mode = "data"] ELSE st1

RECURSIVE VTTReadLines(_, _, _)
VTTReadLines(st, ls, k) == IF k > Len(ls) THEN st ELSE VTTReadLines(VTTReadLine(st, ls[k]), ls, k + 1)

VTTResult(st) ==
    IF ~Failed(st) THEN [err |-> "", subs |-> st.subs]
    ELSE LET e == st.err[1]
         IN  IF "header" \in DOMAIN e THEN [err |-> "WebVTTHeaderError", msg |-> B("No WEBVTT header found"), ctx |-> <<>>]
             ELSE [err |-> "WebVTTError", ctx |-> st.ctx,
                   msg |-> CString(B("Error in WebVTT file: saw ") \o (IF e.saw = <<>> THEN B("an empty string") ELSE e.saw)
                             \o B(" when expecting ") \o e.want)]

VTTRead(bytes) == VTTResult(VTTReadLines(VTTStart, Lines(bytes), 1))
===============================================================================
