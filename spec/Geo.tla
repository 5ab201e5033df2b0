-------------------------------- MODULE Geo --------------------------------
(***************************************************************************)
(* Exact planar and spatial geometry over the integers and rationals.      *)
(* Everything is constant level: the ground truth every other module of    *)
(* the specification is written against.  TLC integers are 32 bit and TLC  *)
(* raises an error on overflow, so no answer is ever silently wrong.       *)
(*                                                                         *)
(*   point          <<x, y>>          integers                             *)
(*   rational       <<n, d>>          n/d, d > 0                           *)
(*   rational point <<X, Y, D>>       (X/D, Y/D), D > 0                    *)
(* A reply with denominator 0 stands for "no rational with a plausible     *)
(* denominator is within rounding error of what the code returned".        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % Abs(b))

Range(s) == {s[k] : k \in 1..Len(s)}
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y

-----------------------------------------------------------------------------
(* vectors and orientation *)
Sub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Add(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Cr(u, v)  == u[1] * v[2] - u[2] * v[1]
Dt(u, v)  == u[1] * v[1] + u[2] * v[2]
Cross(o, a, b) == (a[1] - o[1]) * (b[2] - o[2]) - (a[2] - o[2]) * (b[1] - o[1])
Dot(o, a, b)   == (a[1] - o[1]) * (b[1] - o[1]) + (a[2] - o[2]) * (b[2] - o[2])
Dist2(a, b)    == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])
\* 1: c lies to the left of a->b, -1: to the right, 0: collinear
Orient(a, b, c) == Sgn(Cross(a, b, c))
LexLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])

OnLine(a, b, p) == Cross(a, b, p) = 0
OnSeg(a, b, p)  == Cross(a, b, p) = 0 /\ Dot(p, a, b) <= 0        \* closed segment
InSeg(a, b, p)  == Cross(a, b, p) = 0 /\ Dot(p, a, b) < 0         \* open segment
OnRay(o, v, p)  == Cr(v, Sub(p, o)) = 0 /\ Dt(v, Sub(p, o)) >= 0

-----------------------------------------------------------------------------
(* rationals *)
RNorm(n, d) == LET g == Gcd(n, d)
                   s == Sgn(d)
               IN  IF g = 0 THEN <<0, 0>> ELSE <<s * (n \div g), Abs(d) \div g>>
RIs(q, n, d)  == q[2] # 0 /\ q = RNorm(n, d)
RIsInt(q, n)  == q[2] = 1 /\ q[1] = n
\* exact comparison of two rationals with positive denominators, along their continued fractions (never overflows)
RECURSIVE RCmp(_, _)
RCmp(q, r) == LET i == q[1] \div q[2]
                  j == r[1] \div r[2]
                  a == q[1] % q[2]
                  b == r[1] % r[2]
              IN  IF i # j THEN Sgn(i - j)
                  ELSE IF a = 0 \/ b = 0 THEN Sgn(a) - Sgn(b)
                  ELSE RCmp(<<r[2], b>>, <<q[2], a>>)

QNorm(P) == LET g == Gcd(Gcd(P[1], P[2]), P[3])
                s == Sgn(P[3])
            IN  IF P[3] = 0 THEN <<0, 0, 0>>
                ELSE <<s * (P[1] \div g), s * (P[2] \div g), Abs(P[3]) \div g>>
QOf(p)      == <<p[1], p[2], 1>>
QIs(P, p)   == P = QOf(p)
\* a + (n/d) (b - a)
QAlong(a, b, n, d) == QNorm(<<a[1] * d + n * (b[1] - a[1]), a[2] * d + n * (b[2] - a[2]), d>>)
\* orientation / dot product of a rational point against an integer line, scaled by D > 0
QCross(a, b, P) == (b[1] - a[1]) * (P[2] - P[3] * a[2]) - (b[2] - a[2]) * (P[1] - P[3] * a[1])
QOnLine(a, b, P) == P[3] > 0 /\ QCross(a, b, P) = 0
QInBox(a, b, P)  == /\ Min2(a[1], b[1]) * P[3] <= P[1] /\ P[1] <= Max2(a[1], b[1]) * P[3]
                    /\ Min2(a[2], b[2]) * P[3] <= P[2] /\ P[2] <= Max2(a[2], b[2]) * P[3]
QOnSeg(a, b, P)  == QOnLine(a, b, P) /\ QInBox(a, b, P)

-----------------------------------------------------------------------------
(* two closed, non degenerate segments *)
Parallel(a, b, c, d) == Cr(Sub(b, a), Sub(d, c)) = 0
Straddle(a, b, c, d) == Orient(a, b, c) * Orient(a, b, d)      \* -1 iff c and d strictly on opposite sides
SegsMeet(a, b, c, d) == \/ OnSeg(a, b, c) \/ OnSeg(a, b, d) \/ OnSeg(c, d, a) \/ OnSeg(c, d, b)
                        \/ (Straddle(a, b, c, d) < 0 /\ Straddle(c, d, a, b) < 0)
SegsCross(a, b, c, d) == Straddle(a, b, c, d) < 0 /\ Straddle(c, d, a, b) < 0    \* one point, interior to both
\* end points of the intersection set; never more than two elements
Touches(a, b, c, d) == {p \in {c, d} : OnSeg(a, b, p)} \cup {p \in {a, b} : OnSeg(c, d, p)}
SegsOverlap(a, b, c, d) == Cardinality(Touches(a, b, c, d)) = 2                   \* share a whole sub-segment
\* intersection point of the two (non parallel) lines
LineX(a, b, c, d) == LET den == Cr(Sub(b, a), Sub(d, c))
                         num == Cr(Sub(c, a), Sub(d, c))
                     IN  QAlong(a, b, num, den)

-----------------------------------------------------------------------------
(* polygons: sequences of vertices, implicitly closed *)
Nxt(poly, k) == IF k = Len(poly) THEN 1 ELSE k + 1
Prv(poly, k) == IF k = 1 THEN Len(poly) ELSE k - 1
RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)
SeqSum(f) == SumTo(f, Len(f))
Area2(poly) == SeqSum([k \in 1..Len(poly) |-> Cr(poly[k], poly[Nxt(poly, k)])])
OnBorder(poly, p) == \E k \in 1..Len(poly) : OnSeg(poly[k], poly[Nxt(poly, k)], p)
IsVertex(poly, p) == \E k \in 1..Len(poly) : poly[k] = p
\* does the half open upward/downward ray to +x leave through edge k?
RayHit(a, b, p) == \/ a[2] <= p[2] /\ b[2] > p[2] /\ Cross(a, b, p) > 0
                   \/ b[2] <= p[2] /\ a[2] > p[2] /\ Cross(a, b, p) < 0
\* winding number of poly around p (p not on the border)
Winding(poly, p) ==
    SeqSum([k \in 1..Len(poly) |->
        LET a == poly[k]
            b == poly[Nxt(poly, k)]
        IN  IF a[2] <= p[2] /\ b[2] > p[2] /\ Cross(a, b, p) > 0 THEN 1
            ELSE IF b[2] <= p[2] /\ a[2] > p[2] /\ Cross(a, b, p) < 0 THEN -1 ELSE 0])
StrictlyInside(poly, p) == ~OnBorder(poly, p) /\ Winding(poly, p) # 0
Where(poly, p) == IF IsVertex(poly, p) THEN "vertex"
                  ELSE IF OnBorder(poly, p) THEN "border"
                  ELSE IF Winding(poly, p) # 0 THEN "interior" ELSE "exterior"
=============================================================================
