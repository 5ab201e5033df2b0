------------------------------ MODULE Polygons ------------------------------
(***************************************************************************)
(* C05: point in polygon.  C26: measures of point sequences.               *)
(***************************************************************************)
EXTENDS Geo

INTERIOR == 1
EXTERIOR == 0
BORDER == 2
VERTEX == 3
Kind(poly, p) == IF IsVertex(poly, p) THEN VERTEX ELSE IF OnBorder(poly, p) THEN BORDER
                 ELSE IF Winding(poly, p) # 0 THEN INTERIOR ELSE EXTERIOR
\* plain containment says nothing about the border itself, except that it answers the same for the same point
InOK(poly, p, ans) == OnBorder(poly, p) \/ ans = (Winding(poly, p) # 0)
PipOK(poly, ps, r) == \A k \in 1..Len(ps) :
    LET p == ps[k]
        q == r[k]
    IN  /\ InOK(poly, p, q[1]) /\ q[2] = q[1] /\ q[3] = q[1]
        /\ q[4] = Kind(poly, p) /\ q[5] = q[4] /\ q[6] = q[4]
\* convex, counter-clockwise: closed containment
InConvex(poly, p) == \A k \in 1..Len(poly) : Orient(poly[k], poly[Nxt(poly, k)], p) >= 0
ConvexOK(poly, ps, r) == \A k \in 1..Len(ps) : \A j \in 1..Len(r[k]) : r[k][j] = InConvex(poly, ps[k])
\* a point belongs to exactly one piece of a partition if it lies strictly inside the whole
PartitionOK(pieces, whole, ps, r) == \A k \in 1..Len(ps) :
    LET n == Cardinality({j \in 1..Len(pieces) : r[k][j]})
    IN  /\ StrictlyInside(whole, ps[k]) => n = 1
        /\ n <= 1
        /\ ~OnBorder(whole, ps[k]) /\ Winding(whole, ps[k]) = 0 => n = 0
-----------------------------------------------------------------------------
(* measures *)
MomentX(poly) == SeqSum([k \in 1..Len(poly) |-> Cr(poly[k], poly[Nxt(poly, k)]) * (poly[k][1] + poly[Nxt(poly, k)][1])])
MomentY(poly) == SeqSum([k \in 1..Len(poly) |-> Cr(poly[k], poly[Nxt(poly, k)]) * (poly[k][2] + poly[Nxt(poly, k)][2])])
Centroid(poly) == QNorm(<<MomentX(poly), MomentY(poly), 3 * Area2(poly)>>)
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
Rot(s, m) == [k \in 1..Len(s) |-> s[((k - 1 + m) % Len(s)) + 1]]
Concave(poly, k) == Cross(poly[Prv(poly, k)], poly[k], poly[Nxt(poly, k)]) <= 0
MeasureOK(poly, m, r) ==
    /\ r[1] = RNorm(Area2(poly), 2) /\ r[2] = RNorm(Abs(Area2(poly)), 2)
    /\ Area2(poly) # 0 => r[3] = Centroid(poly)
    /\ r[4] = Rev(poly)
    /\ r[5] = [k \in 1..Len(poly) |-> Concave(poly, k)]
    /\ r[6] = [k \in 1..Len(poly) |-> <<poly[k], poly[Nxt(poly, k)]>>]
    /\ r[7] = [k \in 1..(Len(poly) - 1) |-> <<poly[k], poly[k + 1]>>]
    /\ r[8] = [k \in 1..Len(poly) |-> <<Nxt(poly, k), Prv(poly, k)>>]
\* least and greatest coordinate, of the whole sequence or of positions i..j
Least(s, i, j, c) == <<SetMin({s[k][c] : k \in i..j}), 1>>
Most(s, i, j, c) == <<SetMax({s[k][c] : k \in i..j}), 1>>
Bounds(s, i, j) == <<Least(s, i, j, 1), Most(s, i, j, 1), Least(s, i, j, 2), Most(s, i, j, 2)>>
Bounds3(s, i, j) == Bounds(s, i, j) \o <<Least(s, i, j, 3), Most(s, i, j, 3)>>
HeldOK(s, i, j, r) == \A c \in 1..Len(r) : LET q == r[c] IN
    /\ q[1] = RNorm(Area2(s), 2) /\ q[2] = RNorm(Abs(Area2(s)), 2)
    /\ Area2(s) # 0 => q[3] = Centroid(s)
    /\ q[4] = Bounds(s, 1, Len(s)) /\ q[5] = Bounds(s, i, j) /\ q[6] = Bounds(s, 1, j)
    /\ q[7] = [k \in 1..Len(s) |-> Concave(s, k)] /\ q[8]
SpaceOK(s, i, j, r) == r[1] = Bounds3(s, 1, Len(s)) /\ r[2] = Bounds3(s, i, j) /\ r[3] = Bounds3(s, 1, j)
SameOK(u, v, m, r) == /\ r[1] = (u = v)
                      /\ r[2] = (Len(u) = Len(v) /\ u = Rot(v, m))
                      /\ Len(u) = Len(v) => r[3] = LET S == {k \in 1..Len(v) : v[k] = u[1]} IN IF S = {} THEN -1 ELSE SetMin(S) - 1

-----------------------------------------------------------------------------
PipAccepts(rec) == LET a == rec.a
                       r == rec.r
                   IN CASE rec.op = "pip" -> PipOK(a[1], a[2], r)
                        [] rec.op = "plain" -> \A t \in 1..Len(r) : \A k \in 1..Len(a[2]) : \A j \in 1..2 : InOK(a[1], a[2][k], r[t][k][j]) /\ r[t][k][j] = r[1][k][1]
                        [] rec.op = "convex" -> ConvexOK(a[1], a[2], r)
                        [] rec.op = "cells" -> PartitionOK(a[1], a[2], a[3], r)
MeasureAccepts(rec) == LET a == rec.a
                           r == rec.r
                       IN CASE rec.op = "measure" -> MeasureOK(a[1], 0, r)
                            [] rec.op = "held" -> HeldOK(a[1], a[2], a[3], r)
                            [] rec.op = "space" -> SpaceOK(a[1], a[2], a[3], r)
                            [] rec.op = "typed" -> \A t \in 1..Len(r) : /\ r[t][1] = Bounds(a[1], 1, Len(a[1])) /\ r[t][2] = Bounds(a[1], a[2], a[3]) /\ r[t][3] = Bounds(a[1], 1, a[3])
                                                                        /\ r[t][4] = Rev(a[1]) /\ r[t][5] = [k \in 1..Len(a[1]) |-> Concave(a[1], k)]
                            [] rec.op = "same" -> SameOK(a[1], a[2], a[3], r)
=============================================================================
