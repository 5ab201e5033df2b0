------------------------------- MODULE SegMC --------------------------------
(* Two segments (and a ray) of a small grid: the definitions the code is judged by against independent ones. *)
EXTENDS Triangles, Distances
CONSTANTS M
VARIABLES w
vars == <<w>>
Grid == (0..M) \X (0..M)
Init == w = <<>>
Next == Len(w) < 4 /\ \E p \in Grid : (Len(w) % 2 = 1 => p # w[Len(w)]) /\ w' = Append(w, p)
Spec == Init /\ [][Next]_vars
Pairs == Len(w) = 4 =>
    LET a == w[1]
        b == w[2]
        c == w[3]
        d == w[4]
        t == SegType(a, b, c, d)
    IN  \* two segments meet unless a line separates them
        /\ SegsMeet(a, b, c, d) <=> HullsMeet({a, b}, {c, d})
        /\ Cardinality(Touches(a, b, c, d)) <= 2
        /\ t = SegType(c, d, a, b) /\ t = SegType(b, a, c, d) /\ t = SegType(b, a, d, c)
        /\ t = OVERLAPPING => Parallel(a, b, c, d)
        /\ t = CROSSING => QOnSeg(a, b, LineX(a, b, c, d)) /\ QOnSeg(c, d, LineX(a, b, c, d)) /\ LineX(a, b, c, d) = LineX(d, c, b, a)
        /\ t = ENDPOINT => QOnSeg(a, b, MeetPoint(a, b, c, d)) /\ QOnSeg(c, d, MeetPoint(a, b, c, d))
        /\ (SSD2(a, b, c, d) = <<0, 1>>) <=> SegsMeet(a, b, c, d)
        /\ SSD2(a, b, c, d) = SSD2(d, c, a, b)
        \* the plane z = x + 2y of space answers the same
        /\ LET L(p) == <<p[1], p[2], p[1] + 2 * p[2]>>
           IN  /\ SegType3(L(a), L(b), L(c), L(d)) = t
               /\ t = CROSSING => LET q == LineX3(L(a), L(b), L(c), L(d))
                                      p == LineX(a, b, c, d)
                                  IN  q[1] * p[3] = p[1] * q[4] /\ q[2] * p[3] = p[2] * q[4] /\ q[3] = q[1] + 2 * q[2]
        \* lines and segments
        /\ LineSegType(a, b, c, d) # NONE <=> \E k \in {1} : SegsMeet(<<a[1] - 9 * (b[1] - a[1]), a[2] - 9 * (b[2] - a[2])>>, <<a[1] + 9 * (b[1] - a[1]), a[2] + 9 * (b[2] - a[2])>>, c, d)
        \* rays with rational unit directions: the ray meets the segment iff a long enough piece of it does
        /\ \A v \in {<<1, 0, 1>>, <<0, -1, 1>>, <<3, 4, 5>>, <<-4, 3, 5>>} :
              LET far == <<a[1] + 9 * v[1], a[2] + 9 * v[2]>>
                  k == RaySegType(a, v, c, d)
              IN  /\ (k # NONE) <=> SegsMeet(a, far, c, d)
                  /\ k \in {CROSSING, ENDPOINT} => QOnSeg(c, d, RayPoint(a, v, c, d)) /\ RayDist(a, v, c, d)[1] >= 0
=============================================================================
