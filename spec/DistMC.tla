------------------------------- MODULE DistMC -------------------------------
(* Distances as minima: nothing sampled on the primitives is closer, and the minimum is reached. *)
EXTENDS Triangles, SeqDist
CONSTANTS M, W
VARIABLES w
vars == <<w>>
Grid == (0..M) \X (0..M)
Init == w = <<>>
Next == Len(w) < W /\ \E p \in Grid : (Len(w) = 2 => p # w[2]) /\ (Len(w) = 4 => p # w[4]) /\ w' = Append(w, p)
Spec == Init /\ [][Next]_vars
\* squared distance from p to a + (k/4)(b - a), times 16
At4(p, a, b, k) == LET x == 4 * a[1] + k * (b[1] - a[1]) - 4 * p[1]
                       y == 4 * a[2] + k * (b[2] - a[2]) - 4 * p[2]
                   IN  x * x + y * y
PS == Len(w) = 3 =>
    LET p == w[1]
        a == w[2]
        b == w[3]
        m == PSD2(p, a, b)
        lo == <<Min2(a[1], b[1]), Min2(a[2], b[2])>>
        hi == <<Max2(a[1], b[1]), Max2(a[2], b[2])>>
    IN  /\ m = PSD2(p, b, a)
        /\ \A k \in 0..4 : RCmp(m, <<At4(p, a, b, k), 16>>) <= 0
        /\ (m = <<0, 1>>) <=> OnSeg(a, b, p)
        \* either an end is nearest or the foot of the perpendicular is on the segment
        /\ LET f == D2(a, b)
               e == G(V(a, b), V(a, p))
               q == QAlong(a, b, e, f)
           IN  \/ m \in {<<D2(p, a), 1>>, <<D2(p, b), 1>>}
               \/ /\ QOnSeg(a, b, q)
                  /\ m = RNorm((q[1] - p[1] * q[3]) * (q[1] - p[1] * q[3]) + (q[2] - p[2] * q[3]) * (q[2] - p[2] * q[3]), q[3] * q[3])
        /\ (a[1] # b[1] /\ a[2] # b[2]) =>
              LET c == <<lo, <<hi[1], lo[2]>>, hi, <<lo[1], hi[2]>>>>
              IN  <<PointBoxD2(p, lo, hi), 1>> = (IF InBox(<<lo, hi>>, p) THEN <<0, 1>> ELSE MinQ({PSD2(p, c[k], c[Nxt(c, k)]) : k \in 1..4}))
SS == (Len(w) = 5) =>
    LET a == w[2]
        b == w[3]
        c == w[4]
        d == w[5]
        m == SSD2(a, b, c, d)
    IN  /\ \A k \in 0..4 : \A p \in {c, d} : RCmp(m, <<At4(p, a, b, k), 16>>) <= 0
        /\ (m = <<0, 1>>) <=> HullsMeet({a, b}, {c, d})
        \* the same segments laid in a plane of space, and the second one lifted by 2
        /\ LET S(p, z) == <<p[1], z, p[2]>>
               n == SSD2Space(S(a, 0), S(b, 0), S(c, 2), S(d, 2))
           IN  m = SSD2Space(S(a, 1), S(b, 1), S(c, 1), S(d, 1)) /\ n = RNorm(m[1] + 4 * m[2], m[2])
        \* the polyline a b c d: its distance from p is the least of its pieces, and the closed ring is never farther
        /\ LET p == w[1]
               v == <<a, b, c, d>>
           IN  b # c /\ a # d =>
               /\ PointSeqD2(p, v, FALSE) = PointSeqD2(p, <<d, c, b, a>>, FALSE)
               /\ PointSeqD2(p, v, TRUE) = PointSeqD2(p, <<b, c, d, a>>, TRUE)
               /\ RCmp(PointSeqD2(p, v, TRUE), PointSeqD2(p, v, FALSE)) <= 0
               /\ SeqSeqD2(<<a, b>>, FALSE, <<c, d>>, FALSE) = m /\ SegSeqD2(a, b, <<c, d>>, {1}) = m
=============================================================================
