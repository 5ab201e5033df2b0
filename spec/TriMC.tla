------------------------------- MODULE TriMC --------------------------------
(* Triangles against segments and boxes of a small grid. *)
EXTENDS Triangles
CONSTANTS M
VARIABLES w
vars == <<w>>
Grid == (0..M) \X (0..M)
Init == w = <<>>
Next == Len(w) < 5 /\ \E p \in Grid : /\ (Len(w) = 2 => Orient(w[1], w[2], p) # 0)
                                       /\ (Len(w) = 4 => p # w[4])
                                       /\ (Len(w) = 1 => LexLess(w[1], p))
                                       /\ w' = Append(w, p)
Spec == Init /\ [][Next]_vars
T == SubSeq(w, 1, 3)
Points == Len(w) = 4 => /\ InTriangle(T, w[4]) <=> Where(T, w[4]) # "exterior"
                        /\ InTriangle(T, w[4]) <=> HullsMeet(Range(T), {w[4]})
Segs == Len(w) = 5 =>
    LET a == w[4]
        b == w[5]
        E == EndsInTriangle(a, b, T)
        lo == <<Min2(a[1], b[1]), Min2(a[2], b[2])>>
        hi == <<Max2(a[1], b[1]), Max2(a[2], b[2])>>
        c == <<lo, <<hi[1], lo[2]>>, hi, <<lo[1], hi[2]>>>>
    IN  /\ SegMeetsTriangle(a, b, T) <=> HullsMeet({a, b}, Range(T))
        /\ Cardinality(E) <= 2
        /\ (E # {}) <=> SegMeetsTriangle(a, b, T)
        /\ \A q \in E : QOnSeg(a, b, q)
        \* the triangle meets the box iff it meets its border or contains it, or the box contains the triangle
        /\ (lo[1] < hi[1] /\ lo[2] < hi[2]) =>
              (TriBoxMeet(T, lo, hi) <=> \/ \E k \in 1..4 : SegMeetsTriangle(c[k], c[Nxt(c, k)], T)
                                         \/ \A k \in 1..3 : lo[1] <= T[k][1] /\ T[k][1] <= hi[1] /\ lo[2] <= T[k][2] /\ T[k][2] <= hi[2])
        \* sides of the line ab: a segment between points of different sides crosses it
        /\ LET n == Normal(Sub(b, a))
               d == Dt(n, a)
           IN  /\ \A k \in 1..3 : Sgn(Side(n, d, T[k])) = Orient(a, b, T[k])
               /\ ClassOf({Side(n, d, T[k]) : k \in 1..3}) = 3 <=> \E k \in 1..3 : Straddle(a, b, T[k], T[Nxt(T, k)]) < 0
=============================================================================
