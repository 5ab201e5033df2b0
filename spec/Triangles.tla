----------------------------- MODULE Triangles -----------------------------
(***************************************************************************)
(* C06: triangles against segments and boxes, segments against hyperplanes.*)
(***************************************************************************)
EXTENDS Segments

InTriangle(t, p) == LET s == Orient(t[1], t[2], t[3])
                    IN  \A k \in 1..3 : s * Orient(t[k], t[Nxt(t, k)], p) >= 0
EdgesOf(t) == {<<t[k], t[Nxt(t, k)]>> : k \in 1..Len(t)}
SegMeetsTriangle(a, b, t) == InTriangle(t, a) \/ InTriangle(t, b) \/ \E e \in EdgesOf(t) : SegsMeet(a, b, e[1], e[2])
\* end points of the part of segment ab inside the (closed, convex) triangle, as rational points
EndsInTriangle(a, b, t) ==
    {QOf(p) : p \in {q \in {a, b} : InTriangle(t, q)}}
    \cup UNION {IF ~SegsMeet(a, b, e[1], e[2]) THEN {}
                ELSE IF Parallel(a, b, e[1], e[2]) THEN {QOf(p) : p \in Touches(a, b, e[1], e[2])}
                ELSE {LineX(a, b, e[1], e[2])} : e \in EdgesOf(t)}
SegTriOK(a, b, t, r) ==
    LET S == EndsInTriangle(a, b, t)
    IN  /\ Area2(t) > 0 => r[1] = Cardinality(S)         \* the form that reports points takes counter-clockwise triangles
        /\ Area2(t) > 0 => {r[2][k] : k \in 1..Len(r[2])} = S
        /\ r[3] = SegMeetsTriangle(a, b, t) /\ r[4] = r[3]
\* the extra definition the first is checked against in TrianglesMC
SeparatedOn(n, S, T) == LET ps == {Dt(n, p) : p \in S}
                            qs == {Dt(n, p) : p \in T}
                        IN  SetMax(ps) < SetMin(qs) \/ SetMax(qs) < SetMin(ps)
Normal(u) == <<-u[2], u[1]>>
\* convex hulls of two finite point sets which are disjoint can be separated along a normal of an edge of one of them
AxesOf(S) == {Normal(Sub(p, q)) : p, q \in S} \ {<<0, 0>>}
HullsMeet(S, T) == ~\E n \in AxesOf(S) \cup AxesOf(T) \cup {Sub(p, q) : p \in S, q \in T} : SeparatedOn(n, S, T)
BoxCorners(lo, hi) == {lo, hi, <<lo[1], hi[2]>>, <<hi[1], lo[2]>>}
TriBoxMeet(t, lo, hi) == HullsMeet(Range(t), BoxCorners(lo, hi))

\* segment ab against the hyperplane { p : n.p = d }  (n, d integers), in any dimension
RECURSIVE DotN(_, _, _)
DotN(u, v, k) == IF k = 0 THEN 0 ELSE u[k] * v[k] + DotN(u, v, k - 1)
Side(n, d, p) == DotN(n, p, Len(p)) - d
SegPlaneOK(a, b, n, d, r) ==
    LET sa == Side(n, d, a)
        sb == Side(n, d, b)
        axis == Cardinality({k \in 1..Len(n) : n[k] # 0}) = 1
    IN  sa # sb =>
        /\ IF sa = 0 \/ sb = 0 THEN (axis => r[1]) ELSE r[1] = (Sgn(sa) # Sgn(sb))
        /\ r[1] => /\ r[2] = RNorm(-sa, sb - sa)
                   /\ r[3] = IF Len(a) = 2 THEN QNorm(<<a[1] * (sb - sa) - sa * (b[1] - a[1]), a[2] * (sb - sa) - sa * (b[2] - a[2]), sb - sa>>)
                             ELSE LET f == IF sb > sa THEN 1 ELSE -1
                                  IN Q3Norm(<<f * (a[1] * (sb - sa) - sa * (b[1] - a[1])), f * (a[2] * (sb - sa) - sa * (b[2] - a[2])),
                                              f * (a[3] * (sb - sa) - sa * (b[3] - a[3])), f * (sb - sa)>>)
\* 0 coplanar, 1 in front (on the side the normal points to), 2 behind, 3 straddling
ClassOf(S) == IF \E x \in S : x > 0 THEN (IF \E x \in S : x < 0 THEN 3 ELSE 1) ELSE IF \E x \in S : x < 0 THEN 2 ELSE 0
ClassifyOK(a, b, u, v, r) == LET n == Normal(Sub(v, u))
                                 d == Dt(n, u)
                             IN  r[1] = ClassOf({Side(n, d, a), Side(n, d, b)}) /\ r[2] = ClassOf({Side(n, d, a)})

Classify3OK(a, b, n, d, r) == r[1] = ClassOf({Side(n, d, a), Side(n, d, b)}) /\ r[2] = ClassOf({Side(n, d, a)})
\* a triangle of space and a point of its plane
InTriangle3(t, p) == LET n == Cr3(Sub3(t[2], t[1]), Sub3(t[3], t[1]))
                     IN  \A k \in 1..3 : Dt3(Cr3(Sub3(t[Nxt(t, k)], t[k]), Sub3(p, t[k])), n) >= 0

TriAccepts(rec) == LET a == rec.a
                       r == rec.r
                   IN CASE rec.op = "segtri" -> SegTriOK(a[1], a[2], <<a[3], a[4], a[5]>>, r)
                        [] rec.op = "tribox" -> r[1] = TriBoxMeet(<<a[1], a[2], a[3]>>, a[4], a[5])
                        [] rec.op = "segplane" -> SegPlaneOK(a[1], a[2], a[3], a[4], r)
                        [] rec.op = "segplane3" -> SegPlaneOK(a[1], a[2], a[3], a[4], r)
                        [] rec.op = "classifyN" -> LET n == Normal(Sub(a[3], a[2])) c == ClassOf({Side(n, Dt(n, a[2]), p) : p \in Range(a[1])}) IN r[1] = c /\ r[2] = c
                        [] rec.op = "tri3" -> r[1] = InTriangle3(<<a[2], a[3], a[4]>>, a[1])
                        [] rec.op = "classify3" -> Classify3OK(a[1], a[2], a[3], a[4], r)
                        [] rec.op = "classify" -> ClassifyOK(a[1], a[2], a[3], a[4], r)
=============================================================================
