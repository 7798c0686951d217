---------------------------- MODULE TraceSubTime ----------------------------
(* Checks recorded uses of the real Time class.  A history is a sequence of    *)
(* operations on one time: the specification follows it, and each recorded     *)
(* result must be one that SubTime allows.                                     *)
EXTENDS SubTime, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES k
vars == <<k>>
Init == k = 1

Ok(c) ==
    LET o == c.obs
    IN  CASE c.what = "cmp" -> [lt |-> o.lt, gt |-> o.gt, eq |-> o.eq, ne |-> o.ne] = Operators(c.a, c.b)
          [] c.what = "acc" -> o.err = "" /\ o.hms = HMS(c.a) /\ o.str = TimeText(c.a) /\ o.t = c.a
          [] c.what = "hms" -> o.err = "" /\ o.t = <<c.x[1] * 3600 + c.x[2] * 60 + c.x[3], c.x[4], 1000, 1>>
          [] c.what = "hmsf" -> o.err = "" /\ o.t = <<c.x[1] * 3600 + c.x[2] * 60 + c.x[3], c.x[4], c.x[5], c.x[6]>>
          [] c.what = "at" ->
                IF HasRate(c.a) THEN o.err = "" /\ IsFramesAt(c.a, c.r, o.n) /\ IsMilliseconds(c.a, o.ms) /\ o.secs = c.a[1] * 1000 + o.ms
                ELSE o.err = "UnknownFrameRateError"
          [] c.what = "frames" -> o.err = "" /\ o.t = FromFrames(c.n, c.r)
          [] c.what = "add" -> o.err = "" /\ IsSum(c.a, c.b, o.t)
          [] c.what = "scale" -> o.err = "" /\ IsScaled(c.a, c.f[1], c.f[2], o.t)
          [] c.what = "zero" -> o.t = <<0, 0, 0, 0>>

Verdict == IF Ok(Cases[k]) THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([id |-> Cases[k].id, x |-> Cases[k].what]))
Next == k <= Len(Cases) /\ Verdict /\ k' = k + 1
View == k
Done == k > Len(Cases) => PrintT("DONE " \o ToString(k - 1))
=============================================================================
