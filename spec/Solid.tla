------------------------------- MODULE Solid -------------------------------
(***************************************************************************)
(* C14: walls are closed polygons; what lies left of a wall is empty, what *)
(* lies right of it is solid.  e is the winding number of empty space: 0   *)
(* for clockwise obstacles in the open, 1 inside a counter-clockwise room. *)
(* Simplices are the edges of all walls in order, counted from 0.          *)
(***************************************************************************)
EXTENDS SeqDist, Bsp

SOLID == -1
EMPTY == 1
BOUNDARY == 0
RECURSIVE Concat(_)
Concat(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Concat(Tail(ss))
Walls(polys) == Concat([m \in 1..Len(polys) |-> [k \in 1..Len(polys[m]) |-> <<polys[m][k], polys[m][Nxt(polys[m], k)]>>]])
OnWall(w, p) == \E k \in 1..Len(w) : OnSeg(w[k][1], w[k][2], p)
Turns(polys, p) == SeqSum([m \in 1..Len(polys) |-> Winding(polys[m], p)])
SpaceAt(polys, w, e, p) == IF OnWall(w, p) THEN BOUNDARY ELSE IF Turns(polys, p) = e THEN EMPTY ELSE SOLID
\* r = <<class, squared distance, nearest wall, square of the distance, nearest wall>>
PointOK(polys, w, e, p, r) ==
    LET m == MinQ({PSD2(p, w[k][1], w[k][2]) : k \in 1..Len(w)})
        near(i) == i + 1 \in 1..Len(w) /\ PSD2(p, w[i + 1][1], w[i + 1][2]) = m
    IN  r[1] = SpaceAt(polys, w, e, p) /\ r[2] = m /\ near(r[3]) /\ r[4] = m /\ near(r[5])
-----------------------------------------------------------------------------
(* rays in a direction <<x, y, h>> of integer length h *)
Vec(v) == <<v[1], v[2]>>
\* neither starts on a wall nor grazes a corner
Clean(w, p, v) == ~OnWall(w, p) /\ \A k \in 1..Len(w) : ~OnRay(p, Vec(v), w[k][1])
CrossesWall(s, p, v) == LET q == Add(p, Vec(v))
                        IN  /\ Orient(p, q, s[1]) * Orient(p, q, s[2]) < 0
                            /\ Cr(Sub(s[1], p), Sub(s[2], s[1])) * Cr(Vec(v), Sub(s[2], s[1])) > 0
RayAt(s, p, v) == RNorm(Cr(Sub(s[1], p), Sub(s[2], s[1])) * v[3], Cr(Vec(v), Sub(s[2], s[1])))
FirstWall(w, p, v, q) == \* q = <<hit, distance, wall>>
    LET K == {k \in 1..Len(w) : CrossesWall(w[k], p, v)}
    IN  IF K = {} THEN ~q[1]
        ELSE LET m == MinQ({RayAt(w[k], p, v) : k \in K})
             IN  q[1] /\ q[2] = m /\ q[3] + 1 \in K /\ RayAt(w[q[3] + 1], p, v) = m
\* a ray from empty space that grazes corners: it may stop at any wall it touches, but never behind a wall it has to cross
TouchesAt(s, p, v, d) == \* the ray meets wall s at distance d
    IF Cr(Vec(v), Sub(s[2], s[1])) # 0
    THEN LET q == Add(p, Vec(v)) IN Orient(p, q, s[1]) * Orient(p, q, s[2]) <= 0 /\ RayAt(s, p, v) = d
    ELSE OnRay(p, Vec(v), s[1]) \* (a wall along the ray)
FirstOrTouch(w, p, v, q) ==
    LET K == {k \in 1..Len(w) : CrossesWall(w[k], p, v)}
        m == MinQ({RayAt(w[k], p, v) : k \in K})
    IN  IF ~q[1] THEN K = {}
        ELSE /\ IF q[3] = -1 THEN \E k \in 1..Len(w) : TouchesAt(w[k], p, v, q[2]) \* (entered through a corner)
                ELSE q[3] + 1 \in 1..Len(w) /\ TouchesAt(w[q[3] + 1], p, v, q[2])
             /\ K # {} => RCmp(q[2], m) <= 0
RayOK(polys, w, e, p, v, r) ==
    /\ (~Clean(w, p, v) /\ SpaceAt(polys, w, e, p) = EMPTY) => FirstOrTouch(w, p, v, r[1]) /\ FirstOrTouch(w, p, v, r[2])
    /\ Clean(w, p, v) =>
        /\ IF SpaceAt(polys, w, e, p) = SOLID THEN r[1][1] /\ r[1][2] = <<0, 1>> ELSE FirstWall(w, p, v, r[1])
        /\ FirstWall(w, p, v, r[2])
SolidAccepts(rec) ==
    LET a == rec.a
        r == rec.r
        w == Walls(a[1])
    IN CASE rec.op = "at"  -> \A t \in 1..Len(r) : \A k \in 1..Len(a[3]) : PointOK(a[1], w, a[2], a[3][k], r[t][k])
         [] rec.op = "ray" -> \A t \in 1..Len(r) : \A k \in 1..Len(a[3]) : RayOK(a[1], w, a[2], a[3][k][1], a[3][k][2], r[t][k])
=============================================================================
