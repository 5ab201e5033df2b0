------------------------------ MODULE PolyRel ------------------------------
(***************************************************************************)
(* C18: relations between point sequences: simplicity, self intersection,  *)
(* containment, the parts of a segment inside a polygon, the contacts of   *)
(* two polylines, congruence.                                              *)
(***************************************************************************)
EXTENDS Segments, Polygons

RMid(a, b) == RNorm(a[1] + b[1], a[2] + b[2])             \* a rational between two different ones (the mediant keeps the numbers small)
Edge(poly, k) == <<poly[k], poly[Nxt(poly, k)]>>
NextTo(n, i, j) == j = i + 1 \/ i = j + 1 \/ (i = 1 /\ j = n) \/ (j = 1 /\ i = n)
\* a simple ring: no repeated vertex, edges meet only where they are joined
SimpleRing(poly) ==
    LET n == Len(poly)
    IN  /\ n >= 3
        /\ Cardinality(Range(poly)) = n
        /\ \A i, j \in 1..n : i < j =>
             LET a == poly[i]
                 b == poly[Nxt(poly, i)]
                 c == poly[j]
                 d == poly[Nxt(poly, j)]
             IN  IF NextTo(n, i, j) THEN (n = 3 \/ ~SegsOverlap(a, b, c, d)) ELSE ~SegsMeet(a, b, c, d)
        /\ n = 3 => ~OnLine(poly[1], poly[2], poly[3])
\* outer ring and holes: simple rings whose borders stay clear of each other
BordersMeet(u, v) == \E i \in 1..Len(u), j \in 1..Len(v) : SegsMeet(u[i], u[Nxt(u, i)], v[j], v[Nxt(v, j)])
SimpleRings(rs) == /\ \A k \in 1..Len(rs) : SimpleRing(rs[k])
                   /\ \A j, k \in 1..Len(rs) : j < k => ~BordersMeet(rs[j], rs[k])

-----------------------------------------------------------------------------
(* closed containment of rational points, of segments, of sequences *)
InClosed(poly, p) == OnBorder(poly, p) \/ Winding(poly, p) # 0
QInClosed(poly, P) == InClosed([k \in 1..Len(poly) |-> <<poly[k][1] * P[3], poly[k][2] * P[3]>>], <<P[1], P[2]>>)
\* where, along a -> b, the border is met or left: all transitions happen at these parameters
Breaks(a, b, poly) ==
    {<<0, 1>>, <<1, 1>>}
    \cup {RNorm(Dot(a, b, v), Dist2(a, b)) : v \in {w \in Range(poly) : OnSeg(a, b, w)}}
    \cup {LET c == poly[k]
              d == poly[Nxt(poly, k)]
          IN  RNorm(Cr(Sub(c, a), Sub(d, c)), Cr(Sub(b, a), Sub(d, c)))
          : k \in {j \in 1..Len(poly) : SegsMeet(a, b, poly[j], poly[Nxt(poly, j)]) /\ ~Parallel(a, b, poly[j], poly[Nxt(poly, j)])}}
RECURSIVE SortR(_)
SortR(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : RCmp(x, y) <= 0 IN <<m>> \o SortR(S \ {m})
\* the elementary pieces of a -> b: <<from, to, inside?>>
Pieces(a, b, poly) == LET s == SortR(Breaks(a, b, poly))
                      IN  [k \in 1..(Len(s) - 1) |-> LET m == RMid(s[k], s[k + 1]) IN <<s[k], s[k + 1], QInClosed(poly, QAlong(a, b, m[1], m[2]))>>]
SegInside(a, b, poly) == IF a = b THEN InClosed(poly, a) ELSE \A k \in 1..Len(Pieces(a, b, poly)) : Pieces(a, b, poly)[k][3]
SegMeetsBorder(a, b, poly) == \E k \in 1..Len(poly) : SegsMeet(a, b, poly[k], poly[Nxt(poly, k)])
RingInside(u, poly) == \A k \in 1..Len(u) : SegInside(u[k], u[Nxt(u, k)], poly)
LineInside(u, poly) == \A k \in 1..(Len(u) - 1) : SegInside(u[k], u[k + 1], poly)

\* reply of segment_polygon_intersection: whether the segment meets the closed polygon, and the parts of it inside
QParam(a, b, P) == RNorm((P[1] - P[3] * a[1]) * (b[1] - a[1]) + (P[2] - P[3] * a[2]) * (b[2] - a[2]), P[3] * Dist2(a, b))
PiecesOK(a, b, poly, ret, parts) ==
    LET E == Pieces(a, b, poly)
        lo(q) == LET s == QParam(a, b, q[1])
                     t == QParam(a, b, q[2])
                 IN  IF RCmp(s, t) <= 0 THEN <<s, t>> ELSE <<t, s>>
        L == [k \in 1..Len(parts) |-> lo(parts[k])]
    IN  /\ ret = (SegMeetsBorder(a, b, poly) \/ Winding(poly, a) # 0)
        /\ \A k \in 1..Len(parts) : /\ QOnSeg(a, b, parts[k][1]) /\ QOnSeg(a, b, parts[k][2])
                                    /\ L[k][1] \in Breaks(a, b, poly) /\ L[k][2] \in Breaks(a, b, poly)
                                    /\ L[k][1] # L[k][2]
        \* every elementary piece inside is covered once, every piece outside not at all
        /\ \A e \in 1..Len(E) : Cardinality({k \in 1..Len(L) : RCmp(L[k][1], E[e][1]) <= 0 /\ RCmp(E[e][2], L[k][2]) <= 0}) = (IF E[e][3] THEN 1 ELSE 0)
\* outside as soon as the border is met and some part lies outside; nothing is said about segments clear of the border
ProjectsOutside(a, b, poly) == SegMeetsBorder(a, b, poly) /\ \E k \in 1..Len(Pieces(a, b, poly)) : ~Pieces(a, b, poly)[k][3]

-----------------------------------------------------------------------------
(* contacts, in visiting order; the visitor stops the walk at event number stop (0: never) *)
Prefix(s, m) == IF m = 0 \/ Len(s) <= m THEN s ELSE SubSeq(s, 1, m)
\* contacts of the edge a -> b with edges 1..n of poly, from edge k on: <<k, next k>>
RECURSIVE EdgeHits(_, _, _, _, _)
EdgeHits(a, b, poly, n, k) == IF k > n THEN <<>> ELSE
    (IF SegsMeet(a, b, poly[k], poly[Nxt(poly, k)]) THEN <<<<k, Nxt(poly, k)>>>> ELSE <<>>) \o EdgeHits(a, b, poly, n, k + 1)
RECURSIVE LineHits(_, _, _)
LineHits(u, v, i) == IF i >= Len(u) THEN <<>> ELSE
    LET h == EdgeHits(u[i], u[i + 1], v, Len(v) - 1, 1)
    IN  [k \in 1..Len(h) |-> <<i, i + 1, h[k][1], h[k][2]>>] \o LineHits(u, v, i + 1)
\* reported events carry 0-based indices, the type and both points
Points(t, xs) == IF t = OVERLAPPING THEN xs ELSE <<xs[1], xs[1]>>
BorderOK(a, b, poly, closed, stop, ret, ev) ==
    LET h == Prefix(EdgeHits(a, b, poly, IF closed THEN Len(poly) ELSE Len(poly) - 1, 1), stop)
    IN  /\ ret = (h # <<>>) /\ Len(ev) = Len(h)
        /\ \A k \in 1..Len(h) : /\ ev[k][2] = h[k][1] - 1 /\ ev[k][3] = h[k][2] - 1
                                /\ SegSegOK(a, b, poly[h[k][1]], poly[h[k][2]], ev[k][1], <<ev[k][4], ev[k][5]>>)
LinesOK(u, v, stop, ret, ev) ==
    LET h == Prefix(LineHits(u, v, 1), stop)
    IN  /\ ret = (h # <<>>) /\ Len(ev) = Len(h)
        /\ \A k \in 1..Len(h) : /\ ev[k][2] = [j \in 1..4 |-> h[k][j] - 1]
                                /\ SegSegOK(u[h[k][1]], u[h[k][2]], v[h[k][3]], v[h[k][4]], ev[k][1], <<ev[k][3], ev[k][4]>>)
\* self contacts of a polyline: every pair of edges that meet away from their joint
RECURSIVE SelfHits(_, _, _)
SelfHits(u, i, j) ==
    IF i >= Len(u) - 1 THEN <<>> ELSE IF j >= Len(u) THEN SelfHits(u, i + 1, i + 2)
    ELSE (IF IF j = i + 1 THEN SegsOverlap(u[i], u[i + 1], u[j], u[j + 1]) ELSE SegsMeet(u[i], u[i + 1], u[j], u[j + 1])
          THEN <<<<i, j>>>> ELSE <<>>) \o SelfHits(u, i, j + 1)
SelfOK(u, ret, ev) ==
    LET h == SelfHits(u, 1, 2)
    IN  /\ ret = (h # <<>>) /\ Len(ev) = Len(h)
        /\ \A k \in 1..Len(h) : /\ ev[k][2] = h[k][1] - 1 /\ ev[k][3] = h[k][2] - 1
                                /\ SegSegOK(u[h[k][1]], u[h[k][1] + 1], u[h[k][2]], u[h[k][2] + 1], ev[k][1], <<ev[k][4], ev[k][5]>>)

\* congruence, vertex by vertex: a rotation and translation takes one onto the other
Congruent(u, v) == /\ Len(u) = Len(v)
                   /\ \A i, j \in 1..Len(u) : Dist2(u[i], u[j]) = Dist2(v[i], v[j])
                   /\ \A i, j, k \in 1..Len(u) : Cross(u[i], u[j], u[k]) = Cross(v[i], v[j], v[k])

RelAccepts(rec) == LET a == rec.a
                       r == rec.r
                   IN CASE rec.op = "simple" -> \A k \in 1..Len(r) : r[k] = SimpleRing(a[1])
                        [] rec.op = "rings" -> r = SimpleRings(a[1])
                        [] rec.op = "self" -> SelfOK(a[1], r[1], r[2])
                        [] rec.op = "ring in" -> \A k \in 1..Len(r) : r[k] = RingInside(a[1], a[2])
                        [] rec.op = "line in" -> \A k \in 1..Len(r) : r[k] = LineInside(a[1], a[2])
                        [] rec.op = "pieces" -> PiecesOK(a[1][1], a[1][2], a[2], r[1], r[2]) /\ r[3] = ProjectsOutside(a[1][1], a[1][2], a[2])
                        [] rec.op = "border" -> BorderOK(a[1][1], a[1][2], a[2], a[3] = 1, a[4], r[1], r[2])
                        [] rec.op = "lines" -> LinesOK(a[1], a[2], a[3], r[1], r[2])
                        [] rec.op = "congruent" -> \A k \in 1..Len(r) : r[k] = Congruent(a[1], a[2])
=============================================================================
