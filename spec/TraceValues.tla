----------------------------- MODULE TraceValues -----------------------------
(* Checks recorded questions about values: k the kind of question, then what was  *)
(* asked and what was answered.                                                   *)
EXTENDS Values, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES pos
vars == <<pos>>
Init == pos = 1

\* x units of 1/u are the fraction f (-777777: not a whole number of units)
Is(x, u, f) == x * f[2] = f[1] * u

AnsweredV(r) ==
    LET fa == Fraction(r.a, r.V)
        fb == Fraction(r.b, r.V)
    IN  /\ (SameWay(r.a, r.b) \/ ~VEqual(r.a, r.b)) => r.o.eq = (IF VEqual(r.a, r.b) THEN 1 ELSE 0)
        /\ Is(r.o.fa, r.fu, fa) /\ Is(r.o.fb, r.fu, fb)
        \* (fractions that are the same but reached differently may come out either way)
        /\ Less(fa, fb) => r.o.lt = 1
        /\ (Less(fb, fa) \/ r.a = r.b) => r.o.lt = 0
RightFS(r) ==
    IF ~SizeSpecified(r.a) THEN r.o.spec = 0 /\ r.o.obs = r.a
    ELSE /\ r.o.spec = 1 /\ r.o.obs = r.a
         /\ Is(r.o.pr, r.pu, ProportionOf(r.a, r.V, r.height))
         /\ r.o.pt \in PointsOf(r.a, r.V, r.height)
RightColour(r) ==
    LET n == Len(r.x)
        RECURSIVE All(_, _)
        All(m, i) == IF i > n THEN m ELSE All(ColourDigit(m, r.x[i]), i + 1)
    IN  r.o.err = "" /\ r.o.c = ColourOf(All(ColourStart, 1))
Answered(r) == CASE r.k = "v" -> r.o.err = "" /\ AnsweredV(r)
              [] r.k = "fs" -> r.o.err = "" /\ RightFS(r)
              [] r.k = "h" -> r.o.err = "" /\ r.o.eq = (IF HEqual(r.a, r.b, r.H) THEN 1 ELSE 0)
              [] r.k \in {"rgb", "rgba"} -> RightColour(r)
              [] r.k = "white" -> r.o.err = "" /\ r.o.e = (IF BlankText(r.x) THEN 1 ELSE 0)

Verdict(r) == IF Answered(r) THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([id |-> r.id, x |-> r.k]))
Next == pos <= Len(Cases) /\ Verdict(Cases[pos]) /\ pos' = pos + 1
View == pos
Done == pos > Len(Cases) => PrintT("DONE " \o ToString(pos - 1))
=============================================================================
