------------------------------- MODULE PolyMC -------------------------------
(* All simple polygons with N vertices on a small grid: winding number, ray parity, signed areas and lattice points agree. *)
EXTENDS Polygons
CONSTANTS N, M
VARIABLES v
vars == <<v>>
Grid == (0..M) \X (0..M)
Init == v = <<>>
Next == Len(v) < N /\ \E p \in Grid : p \notin Range(v) /\ (v # <<>> => LexLess(v[1], p)) /\ v' = Append(v, p)
Spec == Init /\ [][Next]_vars
Simple == /\ Area2(v) # 0
          /\ \A i \in 1..N : LET k == Nxt(v, i) IN
                 /\ (Cross(v[i], v[k], v[Nxt(v, k)]) = 0 => Dot(v[k], v[i], v[Nxt(v, k)]) < 0)
                 /\ \A j \in 1..N : j # i /\ j # k /\ Nxt(v, j) # i => ~SegsMeet(v[i], v[k], v[j], v[Nxt(v, j)])
Inner == {p \in Grid : StrictlyInside(v, p)}
Edge == {p \in Grid : OnBorder(v, p)}
Fan(p) == SeqSum([k \in 1..(N - 2) |-> LET t == <<v[1], v[k + 1], v[k + 2]>> IN
              IF \A j \in 1..3 : Sgn(Area2(t)) * Orient(t[j], t[Nxt(t, j)], p) > 0 THEN Sgn(Area2(t)) ELSE 0])
Good == (Len(v) = N /\ Simple) =>
    LET s == Sgn(Area2(v)) IN
    /\ \A p \in Grid \ Edge :
          /\ Winding(v, p) \in {0, s}
          /\ (Winding(v, p) # 0) <=> (Cardinality({k \in 1..N : RayHit(v[k], v[Nxt(v, k)], p)}) % 2 = 1)
          \* points on no diagonal of the fan: the triangles of the fan count them with sign
          /\ (\A k \in 2..N : ~OnSeg(v[1], v[k], p)) => Winding(v, p) = Fan(p)
          /\ Winding(Rev(v), p) = -Winding(v, p) /\ Winding(Rot(v, 1), p) = Winding(v, p)
    \* Pick's theorem
    /\ Abs(Area2(v)) = 2 * Cardinality(Inner) + Cardinality(Edge) - 2
    /\ Area2(Rev(v)) = -Area2(v) /\ Area2(Rot(v, 1)) = Area2(v) /\ Centroid(Rev(v)) = Centroid(v) /\ Centroid(Rot(v, 2)) = Centroid(v)
    /\ (\A k \in 1..N : Orient(v[k], v[Nxt(v, k)], v[Nxt(v, Nxt(v, k))]) > 0) => \A p \in Grid : InConvex(v, p) <=> p \in Inner \cup Edge
    /\ Rev(Rev(v)) = v
=============================================================================
