------------------------------- MODULE Meshes -------------------------------
(***************************************************************************)
(* C19: triangle meshes.  A mesh is a sequence of vertices and a sequence  *)
(* of index triples (0-based, as in the code).                             *)
(***************************************************************************)
EXTENDS Geo

V(pts, i) == pts[i + 1]
Turned(pts, t) == IF Orient(V(pts, t[1]), V(pts, t[2]), V(pts, t[3])) < 0 THEN <<t[1], t[3], t[2]>> ELSE t
Collapsed(pts, t) == V(pts, t[1]) = V(pts, t[2]) \/ V(pts, t[2]) = V(pts, t[3]) \/ V(pts, t[3]) = V(pts, t[1])
\* what the mesh stores: counter-clockwise, without collapsed triples, in the order given
RECURSIVE Stored(_, _, _)
Stored(pts, ts, k) == IF k > Len(ts) THEN <<>> ELSE (IF Collapsed(pts, ts[k]) THEN <<>> ELSE <<Turned(pts, ts[k])>>) \o Stored(pts, ts, k + 1)
Side(t, s) == <<t[s], t[(s % 3) + 1]>>
\* the triangle across side s of triangle k, -1 if there is none
Across(m, k, s) == LET e == Side(m[k], s)
                       S == {j \in 1..Len(m) : \E q \in 1..3 : Side(m[j], q) = <<e[2], e[1]>>}
                   IN  IF S = {} THEN -1 ELSE (CHOOSE j \in S : TRUE) - 1
Adjacency(m) == [k \in 1..Len(m) |-> [s \in 1..3 |-> Across(m, k, s)]]
Corners(pts, t) == <<V(pts, t[1]), V(pts, t[2]), V(pts, t[3])>>
InTri(c, p) == Orient(c[1], c[2], p) >= 0 /\ Orient(c[2], c[3], p) >= 0 /\ Orient(c[3], c[1], p) >= 0
               /\ (OnLine(c[1], c[2], c[3]) => OnSeg(c[1], c[2], p) \/ OnSeg(c[2], c[3], p) \/ OnSeg(c[3], c[1], p))
FindOK(pts, m, p, t) == IF t < 0 THEN \A k \in 1..Len(m) : ~InTri(Corners(pts, m[k]), p) ELSE InTri(Corners(pts, m[t + 1]), p)
SharedSide(t, u) == IF \E s \in 1..3 : \E q \in 1..3 : Side(u, q) = <<Side(t, s)[2], Side(t, s)[1]>>
                    THEN (CHOOSE s \in 1..3 : \E q \in 1..3 : Side(u, q) = <<Side(t, s)[2], Side(t, s)[1]>>) - 1 ELSE -1
MeshOK(pts, ts, qs, r) == LET m == Stored(pts, ts, 1)
                          IN  /\ r[1] = m /\ r[2] = Adjacency(m)
                              /\ r[3] = [k \in 1..Len(m) |-> Corners(pts, m[k])]
                              /\ Len(r[4]) = Len(qs) /\ \A k \in 1..Len(qs) : FindOK(pts, m, qs[k], r[4][k]) /\ FindOK(pts, m, qs[k], r[5][k])
                              /\ \A e \in 1..Len(r[6]) : r[6][e][3] = SharedSide(m[r[6][e][1] + 1], m[r[6][e][2] + 1])
                              /\ Len(r[6]) = Cardinality({<<k, s>> \in (1..Len(m)) \X (1..3) : Across(m, k, s) # -1})

-----------------------------------------------------------------------------
(* sampling: the triangle is chosen by area, the place in it by two further numbers s = sqrt(r1), u = r2 (rationals) *)
TArea(pts, t) == Cross(V(pts, t[1]), V(pts, t[2]), V(pts, t[3]))
AreaTo(pts, m, k) == SumTo([j \in 1..Len(m) |-> TArea(pts, m[j])], k)
\* rT = n/d picks triangle k when the areas before it stay below and the areas up to it reach n/d of the total
Picks(pts, m, rt) == {k \in 1..Len(m) : /\ AreaTo(pts, m, k - 1) * rt[2] <= rt[1] * AreaTo(pts, m, Len(m))
                                        /\ rt[1] * AreaTo(pts, m, Len(m)) <= AreaTo(pts, m, k) * rt[2]}
Spot(c, s, u) == LET w == <<(s[2] - s[1]) * u[2], s[1] * (u[2] - u[1]), s[1] * u[1]>>
                 IN  QNorm(<<w[1] * c[1][1] + w[2] * c[2][1] + w[3] * c[3][1], w[1] * c[1][2] + w[2] * c[2][2] + w[3] * c[3][2], s[2] * u[2]>>)
SampleOK(pts, ts, qs, r) == LET m == Stored(pts, ts, 1)
                            IN  \A k \in 1..Len(qs) : \E j \in Picks(pts, m, qs[k][1]) : r[k] = Spot(Corners(pts, m[j]), qs[k][2], qs[k][3])

-----------------------------------------------------------------------------
(* searching: the triangles visited, as <<from, to>> pairs (from -1 at the start), with a visitor that enters each triangle once *)
RECURSIVE Grow(_, _)
Grow(adj, S) == LET T == S \cup {a \in UNION {Range(adj[t + 1]) : t \in S} : a >= 0} IN IF T = S THEN S ELSE Grow(adj, T)
SearchOK(pts, ts, start, stop, v) ==
    LET adj == Adjacency(Stored(pts, ts, 1))
    IN  /\ Len(v) > 0 /\ v[1] = <<-1, start>>
        /\ \A k \in 2..Len(v) : /\ \E j \in 1..(k - 1) : v[j][2] = v[k][1]
                                /\ \E s \in 1..3 : adj[v[k][1] + 1][s] = v[k][2]
                                /\ \A j \in 1..(k - 1) : v[j][2] # v[k][2]
        /\ IF stop > 0 THEN Len(v) = Min2(stop, Cardinality(Grow(adj, {start})))
           ELSE {v[k][2] : k \in 1..Len(v)} = Grow(adj, {start})

-----------------------------------------------------------------------------
(* seeing: o looks at w through the mesh when the segment stays inside the triangles *)
\* parameters of the part of a -> b inside the closed triangle c (empty set: no part)
Span(a, b, c) ==
    LET hit(p, q) == IF Parallel(a, b, p, q) THEN {RNorm(Dot(a, b, z), Dist2(a, b)) : z \in {y \in {p, q} : OnSeg(a, b, y)}}
                     ELSE IF SegsMeet(a, b, p, q) THEN {RNorm(Cr(Sub(p, a), Sub(q, p)), Cr(Sub(b, a), Sub(q, p)))} ELSE {}
    IN  hit(c[1], c[2]) \cup hit(c[2], c[3]) \cup hit(c[3], c[1])
        \cup (IF InTri(c, a) THEN {<<0, 1>>} ELSE {}) \cup (IF InTri(c, b) THEN {<<1, 1>>} ELSE {})
RMax(S) == CHOOSE x \in S : \A y \in S : RCmp(x, y) >= 0
RMin(S) == CHOOSE x \in S : \A y \in S : RCmp(x, y) <= 0
RECURSIVE Covered(_, _)
Covered(spans, t) == LET R == {S \in spans : RCmp(RMin(S), t) <= 0 /\ RCmp(RMax(S), t) > 0}
                     IN  RCmp(t, <<1, 1>>) >= 0 \/ (R # {} /\ Covered(spans, RMax(UNION R)))
Sees(pts, m, o, w) == LET spans == {Span(o, w, Corners(pts, m[k])) : k \in 1..Len(m)} \ {{}} IN Covered(spans, <<0, 1>>)
Grazes(pts, o, w) == \E k \in 1..Len(pts) : pts[k] # w /\ InSeg(o, w, pts[k])
SeeOK(pts, ts, o, r) == LET m == Stored(pts, ts, 1)
                            used == UNION {{m[k][1], m[k][2], m[k][3]} : k \in 1..Len(m)}
                            S == Range(r)
                        IN  /\ S \subseteq used
                            /\ \A i \in used : LET w == V(pts, i)
                                               IN  /\ i \in S => Sees(pts, m, o, w)
                                                   /\ ~Grazes(pts, o, w) /\ Sees(pts, m, o, w) => i \in S
MeshAccepts(rec) == LET a == rec.a
                        r == rec.r
                    IN CASE rec.op = "mesh" -> MeshOK(a[1], a[2], a[3], r)
                         [] rec.op = "sample" -> SampleOK(a[1], a[2], a[3], r)
                         [] rec.op = "search" -> SearchOK(a[1], a[2], a[3], a[4], r)
                         [] rec.op = "see" -> SeeOK(a[1], a[2], a[3], r)
=============================================================================
