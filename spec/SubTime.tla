-------------------------------- MODULE SubTime --------------------------------
(* Times: <<seconds, frames, rate numerator, rate denominator>>, 0/0 without a   *)
(* rate.  An instant is seconds + frames * denominator / numerator.  Everything  *)
(* is exact: fractions are compared by continued fractions, so that no product   *)
(* is ever bigger than the numbers that libsub's users meet.                     *)
EXTENDS Bytes

HasRate(t) == t[3] # 0
Frames(t) == t[2]

\* The order of a/b and c/d (b, d > 0; a, c >= 0): -1, 0 or 1
RECURSIVE CmpFrac(_, _, _, _)
CmpFrac(a, b, c, d) ==
    LET p == a \div b  q == c \div d  r == a % b  s == c % d
    IN  IF p # q THEN (IF p < q THEN -1 ELSE 1)
        ELSE IF r = 0 /\ s = 0 THEN 0
        ELSE IF r = 0 THEN -1
        ELSE IF s = 0 THEN 1
        ELSE -CmpFrac(b, r, d, s)     \* r/b < s/d iff b/r > d/s

\* frames * den / num as a fraction in lower terms where that is easy
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

CmpSeconds(a, b) == IF a[1] < b[1] THEN -1 ELSE IF a[1] > b[1] THEN 1 ELSE 0

\* The order of the instants of two times with rates and frames below them
CmpInstants(a, b) ==
    IF CmpSeconds(a, b) # 0 THEN CmpSeconds(a, b)
    ELSE CmpFrac(a[2] * a[4], a[3], b[2] * b[4], b[3])

\* Times without rates are ordered by seconds and then frames
CmpPlain(a, b) ==
    IF CmpSeconds(a, b) # 0 THEN CmpSeconds(a, b)
    ELSE IF a[2] < b[2] THEN -1 ELSE IF a[2] > b[2] THEN 1 ELSE 0

Comparable(a, b) == HasRate(a) = HasRate(b)
Cmp(a, b) == IF HasRate(a) THEN CmpInstants(a, b) ELSE CmpPlain(a, b)

TF(x) == IF x THEN "T" ELSE "F"

\* What the comparison operators answer; "U" is a refusal
Less(a, b) == IF Comparable(a, b) THEN TF(Cmp(a, b) < 0) ELSE IF a[1] # b[1] THEN TF(a[1] < b[1]) ELSE "U"
Greater(a, b) == IF Comparable(a, b) THEN TF(Cmp(a, b) > 0) ELSE IF a[1] # b[1] THEN TF(a[1] > b[1]) ELSE "U"
Equal(a, b) == IF Comparable(a, b) THEN TF(Cmp(a, b) = 0) ELSE "U"
Unequal(a, b) == IF Comparable(a, b) THEN TF(Cmp(a, b) # 0) ELSE "U"

Operators(a, b) == [lt |-> Less(a, b), gt |-> Greater(a, b), eq |-> Equal(a, b), ne |-> Unequal(a, b)]

(* ---- accessors ---- *)

HMS(t) == <<t[1] \div 3600, (t[1] \div 60) % 60, t[1] % 60>>

\* How a time is shown
TimeText(t) ==
    Dec(HMS(t)[1], 2) \o B(":") \o Dec(HMS(t)[2], 2) \o B(":") \o Dec(HMS(t)[3], 2) \o B(":") \o DecOf(t[2])
       \o (IF HasRate(t) THEN B(" @ ") \o DecOf(t[3]) \o B("/") \o DecOf(t[4]) ELSE <<>>)

Abs(x) == IF x < 0 THEN -x ELSE x

\* n is an integer nearest to f * d * rn / (n0 * rd): half-way either way.
\* f < n0 / d, so the quotient is below rn / rd.
IsNearest(n, f, n0, d, rn, rd) ==
    LET g1 == Gcd(rn, n0)
        rn1 == rn \div g1   n1 == n0 \div g1
        g2 == Gcd(d, rd)
        d2 == d \div g2     rd2 == rd \div g2
        g3 == Gcd(f * d2, n1)
        num == (f * d2) \div g3    n3 == n1 \div g3       \* quotient = num * rn1 / (n3 * rd2)
        g4 == Gcd(num, rd2)
        num4 == num \div g4        rd4 == rd2 \div g4
    IN  \* |2n - 2q| <= 1, as lower and upper bounds on the quotient num4 * rn1 / (n3 * rd4)
        /\ 2 * n - 1 <= 0 \/ CmpFrac(2 * num4 * rn1, n3 * rd4, 2 * n - 1, 1) >= 0
        /\ n >= 0 /\ CmpFrac(2 * num4 * rn1, n3 * rd4, 2 * n + 1, 1) <= 0

IsFramesAt(t, rate, n) == IsNearest(n, t[2], t[3], t[4], rate[1], rate[2])
IsMilliseconds(t, n) == IsFramesAt(t, <<1000, 1>>, n)
\* the milliseconds that a time may be read as
MillisecondsOf(t) == { n \in Max(0, (t[2] * 1000) \div ((t[3] \div t[4]) + 1) - 2) .. (((t[2] * 1000) \div Max(1, t[3] \div t[4])) + 2) : IsMilliseconds(t, n) }

IntegerRate(t) == t[3] % t[4] = 0
RateOf(t) == t[3] \div t[4]

\* A time has its frames below its rate
Normalised(t) == t[1] >= 0 /\ t[2] >= 0 /\ (HasRate(t) => CmpFrac(t[2] * t[4], t[3], 1, 1) < 0)

FromFrames(n, r) == <<n \div (r[1] \div r[2]), n % (r[1] \div r[2]), r[1], r[2]>>

(* ---- arithmetic, up to the rounding of half-way values ---- *)

HigherRate(a, b) == IF CmpFrac(a[3], a[4], b[3], b[4]) >= 0 THEN <<a[3], a[4]>> ELSE <<b[3], b[4]>>

\* |x| <= y for a difference of seconds dS and a fraction n/q of a frame at rate R, without big products
Within(dS, R, n, q, y, z) ==      \* | dS * R + n/q | <= y/z
    /\ Abs(dS) <= 1
    /\ Abs((dS * R * q + n) * z) <= y * q

IsSum(a, b, x) ==
    LET rate == HigherRate(a, b)
        R == rate[1] \div rate[2]
    IN  /\ x[4] # 0 /\ CmpFrac(x[3], x[4], rate[1], rate[2]) = 0
        /\ Normalised(x)
        /\ \E ma \in MillisecondsOf(a), mb \in MillisecondsOf(b) :
              Within(a[1] + b[1] - x[1], R, (ma + mb) * R - 1000 * x[2], 1000, 1, 2)

\* x is a scaled by p/q, read to the millisecond, to the nearest frame
IsScaled(a, p, q, x) ==
    LET R == RateOf(a)
    IN  /\ x[3] = a[3] /\ x[4] = a[4]
        /\ Normalised(x)
        /\ \E m \in MillisecondsOf(a) :
             LET S == a[1] * p
                 \* instant = S/q + m p / (1000 q)
                 whole == S \div q
                 rest == (S % q) * 1000 + m * p          \* in 1/(1000 q) s
                 whole2 == whole + rest \div (1000 * q)
                 rest2 == rest % (1000 * q)
             IN  \* frames at rate R: rest2 * R / (1000 q)
                 /\ Abs(whole2 - x[1]) <= 1
                 /\ LET d == (whole2 - x[1]) * R - x[2]
                    \* | d + rest2 R / (1000 q) | <= 1/2
                    IN  Abs(d * 1000 * q + rest2 * R) * 2 <= 1000 * q
===============================================================================
