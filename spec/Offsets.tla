------------------------------- MODULE Offsets -------------------------------
(***************************************************************************)
(* C28: a polyline moved sideways.  The copy runs parallel to the original *)
(* at the given distance on the given side: the k-th edge of the copy lies *)
(* on the line at that signed distance from the k-th edge of the original, *)
(* and the copy starts and ends square to the ends of the original.        *)
(* Edges have integer lengths (multiples of Pythagorean steps), so every   *)
(* corner of the copy is a rational point.                                 *)
(***************************************************************************)
EXTENDS Geo

\* lens[k] is the length of the k-th edge; side is 1 for left and -1 for right; d = <<n, q>> is the distance n/q
LensOK(p, lens) == /\ Len(lens) = Len(p) - 1
                   /\ \A k \in 1..Len(lens) : lens[k] > 0 /\ lens[k] * lens[k] = Dist2(p[k], p[k + 1])
UTurn(p, k) == Cross(p[k - 1], p[k], p[k + 1]) = 0 /\ Dot(p[k], p[k - 1], p[k + 1]) > 0
OffsetScene(p, lens) == LensOK(p, lens) /\ \A k \in 2..(Len(p) - 1) : ~UTurn(p, k)

\* P is at signed distance side * d from the line of the edge a -> b of length l
AtDistance(a, b, l, side, d, P) == P[3] > 0 /\ QCross(a, b, P) * d[2] = side * d[1] * l * P[3]
\* P is square to the edge a -> b at a
SquareTo(a, b, P) == (b[1] - a[1]) * (P[1] - P[3] * a[1]) + (b[2] - a[2]) * (P[2] - P[3] * a[2]) = 0
OffsetOK(p, lens, side, d, r) ==
    /\ Len(r) = Len(p)
    /\ \A k \in 1..(Len(p) - 1) : AtDistance(p[k], p[k + 1], lens[k], side, d, r[k]) /\ AtDistance(p[k], p[k + 1], lens[k], side, d, r[k + 1])
    /\ SquareTo(p[1], p[2], r[1])
    /\ SquareTo(p[Len(p)], p[Len(p) - 1], r[Len(p)])
    \* a straight corner stays where it is along the line
    /\ \A k \in 2..(Len(p) - 1) : Cross(p[k - 1], p[k], p[k + 1]) = 0 => SquareTo(p[k], p[k + 1], r[k])

-----------------------------------------------------------------------------
(* the corners of the copy in closed form: along the bisector *)
EndAt(a, b, x, l, side, d) == QNorm(<<x[1] * l * d[2] - side * d[1] * (b[2] - a[2]), x[2] * l * d[2] + side * d[1] * (b[1] - a[1]), l * d[2]>>)
CornerAt(a, b, c, l, m, side, d) ==
    LET u == Sub(b, a)  w == Sub(c, b)
        den == (l * m + Dt(u, w)) * d[2]
        s == side * d[1]
    IN  QNorm(<<b[1] * den - s * (u[2] * m + w[2] * l), b[2] * den + s * (u[1] * m + w[1] * l), den>>)
Offset(p, lens, side, d) ==
    LET n == Len(p)
    IN  [k \in 1..n |-> IF k = 1 THEN EndAt(p[1], p[2], p[1], lens[1], side, d)
                        ELSE IF k = n THEN EndAt(p[n - 1], p[n], p[n], lens[n - 1], side, d)
                        ELSE CornerAt(p[k - 1], p[k], p[k + 1], lens[k - 1], lens[k], side, d)]

(* the curve before trimming: a corner whose two edges are too short for the turn keeps the ends of both *)
Short(a, b, c, l, m, side, d) ==   \* how far the corner moves back, as a fraction <<n, q>> of the unit of length
    LET u == Sub(b, a)  w == Sub(c, b) IN <<side * d[1] * Cr(u, w), (l * m + Dt(u, w)) * d[2]>>
Keeps(a, b, c, l, m, side, d) == LET x == Short(a, b, c, l, m, side, d) IN x[1] <= 0 \/ (x[1] <= l * x[2] /\ x[1] <= m * x[2])
Edge2(a, b, c, l, m, side, d) == <<EndAt(a, b, b, l, side, d), EndAt(b, c, b, m, side, d)>>
RECURSIVE Untrimmed(_, _, _, _, _)
Untrimmed(p, lens, side, d, k) ==
    IF k = Len(p) THEN <<EndAt(p[k - 1], p[k], p[k], lens[k - 1], side, d)>>
    ELSE (IF k = 1 THEN <<EndAt(p[1], p[2], p[1], lens[1], side, d)>>
          ELSE IF Keeps(p[k - 1], p[k], p[k + 1], lens[k - 1], lens[k], side, d) THEN <<CornerAt(p[k - 1], p[k], p[k + 1], lens[k - 1], lens[k], side, d)>>
          ELSE Edge2(p[k - 1], p[k], p[k + 1], lens[k - 1], lens[k], side, d)) \o Untrimmed(p, lens, side, d, k + 1)
\* integer image of a rational polyline, or <<>> if it needs too large a scale
RECURSIVE LcmW(_, _)
LcmW(r, k) == IF k = 0 THEN 1 ELSE LET x == LcmW(r, k - 1) IN IF x > 2000 THEN x ELSE (x \div Gcd(x, r[k][3])) * r[k][3]
Scaled(r) == LET w == LcmW(r, Len(r)) IN IF w > 60 THEN <<>> ELSE [k \in 1..Len(r) |-> <<r[k][1] * (w \div r[k][3]), r[k][2] * (w \div r[k][3])>>]
SimpleCurve(q) == /\ \A k \in 1..(Len(q) - 1) : q[k] # q[k + 1]
                  /\ \A j \in 1..(Len(q) - 1), k \in 1..(Len(q) - 1) :
                        j < k => IF k = j + 1 THEN ~(Cross(q[j], q[k], q[k + 1]) = 0 /\ Dot(q[k], q[j], q[k + 1]) > 0) ELSE ~SegsMeet(q[j], q[j + 1], q[k], q[k + 1])
TrimOK(p, lens, side, d, r) == LET u == Untrimmed(p, lens, side, d, 1)
                                   q == Scaled(u)
                               IN  (q # <<>> /\ SimpleCurve(q)) => r = <<u>>

OffsetAccepts(rec) == LET a == rec.a  r == rec.r
                      IN  CASE rec.op = "off"  -> OffsetScene(a[1], a[2]) /\ OffsetOK(a[1], a[2], a[3], a[4], r)
                            [] rec.op = "trim" -> OffsetScene(a[1], a[2]) /\ TrimOK(a[1], a[2], a[3], a[4], r)
                            [] OTHER -> FALSE
=============================================================================
