-------------------------------- MODULE Collect --------------------------------
(* Collecting raw fragments into subtitles: a machine that takes the fragments, *)
(* stably sorted by start time, one at a time.                                  *)
EXTENDS Raw, SubTime

(* ---- agreement of times and positions ---- *)

SameTime(a, b) == Equal(a, b) = "T"
SameOptTime(a, b) == IF a = <<>> \/ b = <<>> THEN a = b ELSE SameTime(a[1], b[1])

\* Positions <<reference, line, lines, proportional>>
SamePosition(a, b) ==
    IF a[1] < 0 \/ b[1] < 0 THEN FALSE
    ELSE IF a[4] # <<>> /\ b[4] # <<>> THEN a[4] = b[4] /\ a[1] = b[1]
    ELSE IF a[2] # <<>> /\ b[2] # <<>> THEN
         a[1] = b[1] /\ a[2] = b[2] /\ (a[3] # <<>> /\ b[3] # <<>> => a[3] = b[3])
    ELSE FALSE

SameSubtitle(s, r) == SameTime(s.f, r.f) /\ SameTime(s.o, r.o) /\ SameOptTime(s.fu, r.fu) /\ SameOptTime(s.fd, r.fd)
SameLine(l, r) == SamePosition(l.v, r.v)

(* ---- sorting ---- *)

Before(a, b) == Less(a.f, b.f) = "T"

\* put r after everything that does not come after it
RECURSIVE Insert(_, _)
Insert(sorted, r) ==
    IF sorted = <<>> THEN <<r>>
    ELSE LET n == Len(sorted)
         IN  IF Before(r, sorted[n]) THEN Append(Insert(SubSeq(sorted, 1, n - 1), r), sorted[n])
             ELSE Append(sorted, r)

RECURSIVE Sorted(_, _)
Sorted(raw, acc) == IF raw = <<>> THEN acc ELSE Sorted(Tail(raw), Insert(acc, Head(raw)))

(* ---- the machine ---- *)

Block(r) == [t |-> r.t, s |-> r.s, c |-> r.c, e |-> r.e, ec |-> r.ec, fn |-> r.fn, fs |-> r.fs]
Line(r) == [h |-> r.h, v |-> r.v, b |-> <<Block(r)>>]
Subtitle(r) == [f |-> r.f, o |-> r.o, fu |-> r.fu, fd |-> r.fd, l |-> <<Line(r)>>]

Take(out, r) ==
    LET n == Len(out)
    IN  IF n > 0 /\ SameSubtitle(out[n], r) THEN
            LET m == Len(out[n].l)
            IN  IF SameLine(out[n].l[m], r) THEN [out EXCEPT ![n].l[m].b = Append(@, Block(r))]
                ELSE [out EXCEPT ![n].l = Append(@, Line(r))]
        ELSE Append(out, Subtitle(r))

RECURSIVE TakeAll(_, _)
TakeAll(out, raw) == IF raw = <<>> THEN out ELSE TakeAll(Take(out, Head(raw)), Tail(raw))

CollectAll(raw) == TakeAll(<<>>, Sorted(raw, <<>>))
===============================================================================
