------------------------------- MODULE BoxMC --------------------------------
(* Boxes of a small grid: the slab arithmetic the code is judged by against separation and lattice definitions. *)
EXTENDS Triangles, Boxes
CONSTANTS M
VARIABLES w
vars == <<w>>
Grid == (0..M) \X (0..M)
Init == w = <<>>
Next == Len(w) < 4 /\ \E p \in Grid : (Len(w) = 1 => w[1][1] <= p[1] /\ w[1][2] <= p[2]) /\ w' = Append(w, p)
Spec == Init /\ [][Next]_vars
B == <<w[1], w[2]>>
Pts == Len(w) = 3 => /\ InBox(B, w[3]) <=> HullsMeet(BoxCorners(w[1], w[2]), {w[3]})
                     /\ BoxOf({w[1], w[2], w[3]}) = BoxOf({w[3]} \cup Range(Corners(B)))
                     /\ InBox(BoxOf(Range(w)), w[1]) /\ InBox(BoxOf(Range(w)), w[3])
                     /\ InBox(B, w[3]) <=> BoxOf(Range(w)) = B
Two == Len(w) = 4 =>
    LET p == w[3]
        q == w[4]
        d == Sub(q, p)
    IN  /\ (p[1] <= q[1] /\ p[2] <= q[2]) =>
               /\ BoxesMeet(B, <<p, q>>) <=> \E x \in Grid : InBox(B, x) /\ InBox(<<p, q>>, x)
               /\ BoxWithin(<<p, q>>, B) <=> InBox(B, p) /\ InBox(B, q)
        /\ SegHits(p, q, B) <=> HullsMeet({p, q}, BoxCorners(w[1], w[2]))
        /\ d # <<0, 0>> =>
               /\ RayHits(p, d, B) <=> SegHits(p, <<p[1] + 9 * d[1], p[2] + 9 * d[2]>>, B)
               /\ RayHits(p, d, B) => LET e == At(p, d, RayEntry(p, d, B))
                                          x == At(p, d, RayExit(p, d, B))
                                      IN  /\ \A k \in 1..2 : B[1][k] * e[3] <= e[k] /\ e[k] <= B[2][k] * e[3] /\ B[1][k] * x[3] <= x[k] /\ x[k] <= B[2][k] * x[3]
                                          /\ RCmp(RayEntry(p, d, B), RayExit(p, d, B)) <= 0
                                          /\ InBox(B, p) <=> e = QOf(p)
               /\ SegHits(p, q, B) => RayHits(p, d, B)
=============================================================================
