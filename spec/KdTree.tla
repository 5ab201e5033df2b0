------------------------------- MODULE KdTree -------------------------------
(***************************************************************************)
(* C12: range search in a k-d tree; points are tuples of any dimension.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
InRange(lo, hi, p) == \A d \in 1..Len(p) : lo[d] <= p[d] /\ p[d] <= hi[d]
Count(s, p) == Cardinality({k \in 1..Len(s) : s[k] = p})
\* the search visits every stored point of the closed range as often as it is stored, and nothing else
RangeOK(pts, lo, hi, v) ==
    /\ \A k \in 1..Len(v) : InRange(lo, hi, v[k]) /\ Count(v, v[k]) = Count(pts, v[k])
    /\ \A k \in 1..Len(pts) : InRange(lo, hi, pts[k]) => Count(v, pts[k]) > 0
RECURSIVE D2(_, _, _)
D2(p, q, k) == IF k = 0 THEN 0 ELSE (p[k] - q[k]) * (p[k] - q[k]) + D2(p, q, k - 1)
RECURSIVE Lex(_, _, _)
Lex(p, q, k) == k <= Len(p) /\ (p[k] < q[k] \/ (p[k] = q[k] /\ Lex(p, q, k + 1)))
\* comparators used with the tree: by one coordinate, by distance from a point
OrderOK(o, p, q, r) == /\ r[1] = (D2(o, p, Len(o)) < D2(o, q, Len(o)))
                       /\ \A d \in 1..Len(o) : r[2][d] = (p[d] < q[d] \/ (p[d] = q[d] /\ Lex(p, q, 1)))   \* ties lexicographically
\* partition around a median: nothing lost, smaller or equal before, larger or equal from there on, neither side empty
PartitionOK(d, pts, after, m) ==
    /\ Len(after) = Len(pts) /\ \A k \in 1..Len(pts) : Count(after, pts[k]) = Count(pts, pts[k])
    /\ 0 < m /\ m < Len(pts)
    /\ \A k \in 1..m : after[k][d] <= after[m + 1][d]
    /\ \A k \in (m + 1)..Len(after) : after[k][d] >= after[m + 1][d]
KdAccepts(rec) == LET a == rec.a
                      r == rec.r
                  IN CASE rec.op = "range" -> \A k \in 1..Len(a[2]) : RangeOK(a[1], a[2][k][1], a[2][k][2], r[k])
                       [] rec.op = "order" -> OrderOK(a[1], a[2], a[3], r)
                       [] rec.op = "median" -> PartitionOK(a[2], a[1], r[1], r[2])
=============================================================================
