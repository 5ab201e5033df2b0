------------------------------ MODULE SeqDist ------------------------------
(***************************************************************************)
(* C08: distances and closest points involving polygons and polylines.     *)
(* Edge k of a sequence goes from vertex k to vertex k + 1 (to vertex 1    *)
(* from the last one, for polygons); the library counts them from 0.       *)
(***************************************************************************)
EXTENDS Distances, Predicates

Edges(v, closed) == 1..(IF closed THEN Len(v) ELSE Len(v) - 1)
EdgeEnd(v, k) == v[Nxt(v, k)]
PointSeqD2(p, v, closed) == MinQ({PSD2(p, v[k], EdgeEnd(v, k)) : k \in Edges(v, closed)})
SegSeqD2(a, b, v, E) == MinQ({SSD2(a, b, v[k], EdgeEnd(v, k)) : k \in E})
\* an edge of one meets an edge of the other, or the minimum is reached at a vertex of one of them
SeqSeqD2(u, uc, v, vc) ==
    IF \E i \in Edges(u, uc) : \E j \in Edges(v, vc) : SegsMeet(u[i], EdgeEnd(u, i), v[j], EdgeEnd(v, j)) THEN <<0, 1>>
    ELSE MinQ({PointSeqD2(u[i], v, vc) : i \in 1..Len(u)} \cup {PointSeqD2(v[j], u, uc) : j \in 1..Len(v)})
OnSeq(v, closed, P) == \E k \in Edges(v, closed) : QOnSeg(v[k], EdgeEnd(v, k), P)
PointSeqOK(p, v, w, r) ==
    LET c == PointSeqD2(p, v, TRUE)
        o == PointSeqD2(p, v, FALSE)
        x == MinQ({c, PointSeqD2(p, w, TRUE)})
    IN  /\ r[1] = c /\ r[2] = c /\ OnSeq(v, TRUE, r[3][1]) /\ r[3][2] = c
        /\ r[4] = o /\ r[5] = o /\ OnSeq(v, FALSE, r[6][1]) /\ r[6][2] = o
        /\ (OnSeq(v, TRUE, r[7][1]) \/ OnSeq(w, TRUE, r[7][1])) /\ r[7][2] = x
\* reply of a closest point query: <<d2, edge, d2 from the segment to that edge, parameters in range, deviation of the points, d2 of the points>>
NearOK(a, b, v, E, m, q) == /\ q[1] = m /\ q[2] + 1 \in E
                            /\ SSD2(a, b, v[q[2] + 1], EdgeEnd(v, q[2] + 1)) = m
                            /\ q[3] = <<TRUE, TRUE>> /\ q[4] = <<0, 0>> /\ q[5] = m
SegSeqOK(a, b, v, i, j, r) ==
    LET c == SegSeqD2(a, b, v, Edges(v, TRUE))
        o == SegSeqD2(a, b, v, Edges(v, FALSE))
        s == SegSeqD2(a, b, v, i..(j - 1))
    IN  /\ r[1] = c /\ r[2] = c /\ r[3] = o /\ r[4] = o
        /\ NearOK(a, b, v, Edges(v, TRUE), c, r[5]) /\ NearOK(a, b, v, Edges(v, FALSE), o, r[6])
        /\ NearOK(a, b, v, i..(j - 1), s, r[7]) /\ NearOK(a, b, v, i..(j - 1), s, r[8])
        /\ r[9] = s /\ r[10] = s
Near2OK(u, uc, v, vc, m, q) ==
    /\ q[1] = m /\ q[2] + 1 \in Edges(u, uc) /\ q[3] + 1 \in Edges(v, vc)
    /\ SSD2(u[q[2] + 1], EdgeEnd(u, q[2] + 1), v[q[3] + 1], EdgeEnd(v, q[3] + 1)) = m
    /\ q[4] = <<TRUE, TRUE>> /\ q[5] = <<0, 0>> /\ q[6] = m
SeqSeqOK(u, v, r) ==
    LET c == SeqSeqD2(u, TRUE, v, TRUE)
        o == SeqSeqD2(u, FALSE, v, FALSE)
    IN  /\ r[1] = c /\ r[2] = c /\ Near2OK(u, TRUE, v, TRUE, c, r[3])
        /\ r[4] = o /\ r[5] = o /\ Near2OK(u, FALSE, v, FALSE, o, r[6])

\* side of a polyline a point is on: 0 collinear, 1 left, -1 right (seen from its nearest point)
EndSide(v, k, p) == Orient(v[k], v[k + 1], p)
SideOK(v, p, r) ==
    LET m == PointSeqD2(p, v, FALSE)
        K == {k \in 1..(Len(v) - 1) : PSD2(p, v[k], v[k + 1]) = m}
        inner == {k \in K : Dot(v[k], p, v[k + 1]) > 0 /\ Dot(v[k + 1], p, v[k]) > 0}
    IN  IF m[1] = 0 THEN r[1] = 0
        ELSE IF Cardinality(K) = 1 /\ inner = K THEN \A k \in K : r[1] = EndSide(v, k, p)
        ELSE IF Cardinality(K) = 2 /\ inner = {} /\ (\E k \in K : k + 1 \in K) THEN
             LET k == CHOOSE j \in K : j + 1 \in K
                 t == Orient(v[k], v[k + 1], v[k + 2])
                 fr == Sub(v[k + 2], v[k + 1])
                 bk == Sub(v[k], v[k + 1])
                 w == Sub(p, v[k + 1])
             IN  PSD2(p, v[k + 1], v[k + 1]) = m /\ t # 0 =>
                     r[1] = IF InSector(fr, bk, w) THEN 1 ELSE -1
        ELSE TRUE
SeqAccepts(rec) == LET a == rec.a
                       r == rec.r
                   IN CASE rec.op = "ptseq" -> PointSeqOK(a[1], a[2], a[3], r)
                        [] rec.op = "segseq" -> SegSeqOK(a[1], a[2], a[3], a[4], a[5], r)
                        [] rec.op = "seqseq" -> SeqSeqOK(a[1], a[2], r)
                        [] rec.op = "side" -> SideOK(a[1], a[2], r)
=============================================================================
