------------------------------- MODULE Convex -------------------------------
(***************************************************************************)
(* C25: oriented boxes and convex polygons, at rest and in motion.         *)
(* Two convex polygons meet iff borders meet or one contains the other;    *)
(* when they move, the set of times at which they meet is an interval and  *)
(* it starts and ends with a vertex of one on an edge of the other.        *)
(* None of this mentions separating axes.                                  *)
(***************************************************************************)
EXTENDS Distances

Ccw(poly) == IF Area2(poly) > 0 THEN poly ELSE [k \in 1..Len(poly) |-> poly[Len(poly) + 1 - k]]
InHull(poly, p) == LET c == Ccw(poly) IN \A k \in 1..Len(c) : Cross(c[k], c[Nxt(c, k)], p) >= 0
InHullOpen(poly, p) == LET c == Ccw(poly) IN \A k \in 1..Len(c) : Cross(c[k], c[Nxt(c, k)], p) > 0
Edges(poly) == {<<poly[k], poly[Nxt(poly, k)]>> : k \in 1..Len(poly)}
Meet(P, Q) == \/ InHull(P, Q[1]) \/ InHull(Q, P[1])
              \/ \E e \in Edges(P), f \in Edges(Q) : SegsMeet(e[1], e[2], f[1], f[2])
\* common interior points
Line2(c, e) == \A k \in 1..Len(c) : Cross(e[1], e[2], c[k]) <= 0
Overlap(P, Q) == Meet(P, Q) /\ ~(\E e \in Edges(Ccw(P)) : Line2(Q, e)) /\ ~(\E e \in Edges(Ccw(Q)) : Line2(P, e))

-----------------------------------------------------------------------------
(* motion: Q moves with velocity v relative to P *)
Moved(Q, v) == [k \in 1..Len(Q) |-> Add(Q[k], v)]
\* times at which point p moving with velocity u is on segment e (which is not moving along itself)
HitTimes(p, u, e) == LET d == Sub(e[2], e[1])
                         den == Cr(d, u)
                         num == -Cr(d, Sub(p, e[1]))
                     IN  IF den = 0 THEN {}
                         ELSE LET t == RNorm(num, den)
                              IN  IF QOnSeg(e[1], e[2], QNorm(<<p[1] * t[2] + t[1] * u[1], p[2] * t[2] + t[1] * u[2], t[2]>>)) THEN {t} ELSE {}
\* the point runs along the line of the segment: it enters and leaves it at its ends
SlideTimes(p, u, e) == IF Cr(Sub(e[2], e[1]), u) # 0 \/ Cross(e[1], e[2], p) # 0 THEN {}
                       ELSE {RNorm(Dt(u, Sub(x, p)), Dt(u, u)) : x \in {e[1], e[2]}}
TouchTimes(P, Q, v) == LET m == <<-v[1], -v[2]>>
                       IN  UNION ({HitTimes(Q[k], v, e) \cup SlideTimes(Q[k], v, e) : k \in 1..Len(Q), e \in Edges(P)}
                                  \cup {HitTimes(P[k], m, e) \cup SlideTimes(P[k], m, e) : k \in 1..Len(P), e \in Edges(Q)})
Fwd(S) == {t \in S : t[1] >= 0}
MaxT(S) == CHOOSE x \in S : \A y \in S : RCmp(x, y) >= 0
First(P, Q, v) == IF Meet(P, Q) THEN <<0, 1>> ELSE MinQ(Fwd(TouchTimes(P, Q, v)))
\* sliding along a common line without ever sharing interior points
Slides(P, Q, v) == \E e \in Edges(Ccw(P)) : Cr(Sub(e[2], e[1]), v) = 0 /\ Line2(Q, e) /\ (\E k \in 1..Len(Q) : Cross(e[1], e[2], Q[k]) = 0)
\* r = <<hit, first time, last time, last is finite>>; tmax < 0 stands for "never"
MotionOK(P, Q, v, tmax, r, fuzzy) ==
    IF v = <<0, 0>>
    THEN IF Overlap(P, Q) \/ (Meet(P, Q) /\ ~fuzzy) THEN r[1] /\ r[2] = <<0, 1>> /\ ~r[4] ELSE Meet(P, Q) \/ ~r[1]
    ELSE LET now == Meet(P, Q)
             T == Fwd(TouchTimes(P, Q, v))
             t0 == IF now THEN <<0, 1>> ELSE MinQ(T)
             t1 == MaxT(T)
         IN  IF ~now /\ T = {} THEN ~r[1]
             ELSE IF tmax >= 0 /\ RCmp(t0, <<tmax, 1>>) > 0 THEN ~r[1]
             ELSE \/ r[1] /\ r[2] = t0 /\ r[3] = t1 /\ r[4]
                  \* a contact of one instant, or a grazing one: rounding decides
                  \/ ~r[1] /\ (t0 = t1 \/ (tmax >= 0 /\ t0 = <<tmax, 1>>) \/ (fuzzy /\ (Slides(P, Q, v) \/ Slides(Q, P, v))))
                  \/ r[1] /\ t0 = t1 /\ r[2] = t0

-----------------------------------------------------------------------------
(* oriented boxes: centre c, first axis (x, y)/h, half widths w; corners scaled by s, a multiple of h *)
BoxAt(c, x, w, s) == LET m == s \div x[3]
                         u == <<m * x[1], m * x[2]>>
                         n == <<-m * x[2], m * x[1]>>
                         at(i, j) == <<s * c[1] + i * w[1] * u[1] + j * w[2] * n[1], s * c[2] + i * w[1] * u[2] + j * w[2] * n[2]>>
                     IN  <<at(-1, -1), at(1, -1), at(1, 1), at(-1, 1)>>
Lcm(a, b) == (a \div Gcd(a, b)) * b
ObbObbOK(c, x, w, d, y, z, r) == LET s == Lcm(x[3], y[3]) IN r[1] = Meet(BoxAt(c, x, w, s), BoxAt(d, y, z, s))
ObbMoveOK(c, x, w, d, y, z, v, tmax, r) == LET s == Lcm(x[3], y[3])
                                           IN  MotionOK(BoxAt(c, x, w, s), BoxAt(d, y, z, s), <<s * v[1], s * v[2]>>, tmax, r, TRUE)
\* corners counterclockwise from the right backward one; a box rebuilt from its rectangle is the same box
ObbOK(c, x, w, r) == LET k == BoxAt(c, x, w, x[3])
                         q == [j \in 1..4 |-> QNorm(<<k[j][1], k[j][2], x[3]>>)]
                     IN  r[1] = q /\ r[2] = q /\ r[3] = q /\ r[4] = 4

-----------------------------------------------------------------------------
(* the intersection of two convex polygons: corner candidates *)
QInHull(poly, q) == LET c == Ccw(poly) IN \A k \in 1..Len(c) : QCross(c[k], c[Nxt(c, k)], q) >= 0
Cands(P, Q) == {QOf(P[k]) : k \in {j \in 1..Len(P) : InHull(Q, P[j])}} \cup {QOf(Q[k]) : k \in {j \in 1..Len(Q) : InHull(P, Q[j])}}
               \cup UNION {IF Parallel(e[1], e[2], f[1], f[2]) \/ ~SegsMeet(e[1], e[2], f[1], f[2]) THEN {} ELSE {LineX(e[1], e[2], f[1], f[2])} : e \in Edges(P), f \in Edges(Q)}
\* a candidate is a corner of the intersection unless the intersection is straight there: it is inside an edge of P or Q (or both, the same way)
Corner(P, Q, q) == \/ \E e \in Edges(P), f \in Edges(Q) : ~Parallel(e[1], e[2], f[1], f[2]) /\ QOnSeg(e[1], e[2], q) /\ QOnSeg(f[1], f[2], q)
                   \/ \E k \in 1..Len(P) : QIs(q, P[k]) /\ InHullOpen(Q, P[k])
                   \/ \E k \in 1..Len(Q) : QIs(q, Q[k]) /\ InHullOpen(P, Q[k])
\* r = <<type (0 none, 1 face, 3 overlapping), points visited>>
FaceTouch(P, Q) == ~Overlap(P, Q) /\ \E e \in Edges(P), f \in Edges(Q) : SegsOverlap(e[1], e[2], f[1], f[2])
ConvexXOK(P, Q, r) ==
    LET seen == {QNorm(r[2][k]) : k \in 1..Len(r[2])}
    IN  /\ r[1] = (IF ~Meet(P, Q) THEN 0 ELSE IF FaceTouch(P, Q) THEN 1 ELSE 3)
        /\ seen \subseteq Cands(P, Q)
        /\ \A q \in Cands(P, Q) : (r[1] = 1 \/ (Overlap(P, Q) /\ Corner(P, Q, q))) => q \in seen
        /\ Meet(P, Q) => seen # {}
ConvexAccepts(rec) ==
    LET a == rec.a
        r == rec.r
    IN CASE rec.op = "sat" -> IF Overlap(a[1], a[2]) THEN r[1] ELSE Meet(a[1], a[2]) \/ ~r[1]
         [] rec.op = "msat" -> MotionOK(a[1], a[2], a[3], a[4], r, FALSE)
         [] rec.op = "oo" -> ObbObbOK(a[1], a[2], a[3], a[4], a[5], a[6], r)
         [] rec.op = "moo" -> ObbMoveOK(a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], r)
         [] rec.op = "obb" -> ObbOK(a[1], a[2], a[3], r)
         [] rec.op = "cx" -> ConvexXOK(a[1], a[2], r)
=============================================================================
