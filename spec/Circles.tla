------------------------------ MODULE Circles ------------------------------
(***************************************************************************)
(* C24: circles, spheres and capsules against each other, rays, segments   *)
(* and boxes, at rest and in motion.                                       *)
(* Scenes are integer; a moving centre is c + t v, t >= 0.  The squared    *)
(* distance from a point to a closed convex set is convex along a line, so *)
(* a first contact at t > 0 is exactly a parameter at which it equals r^2  *)
(* while decreasing: that is what a reply is held against, whatever        *)
(* irrational number the code reports as t.                                *)
(***************************************************************************)
EXTENDS Distances

VScale(k, v) == [j \in 1..Len(v) |-> k * v[j]]
VAdd(a, b) == [j \in 1..Len(a) |-> a[j] + b[j]]
QV(x, d) == LET g == IF Len(x) = 2 THEN Gcd(Gcd(x[1], x[2]), d) ELSE Gcd(Gcd(x[1], x[2]), Gcd(x[3], d))
            IN  [j \in 1..(Len(x) + 1) |-> IF j > Len(x) THEN d \div g ELSE Sgn(x[j]) * (Abs(x[j]) \div g)]
\* a point of the ray p + t v, t >= 0, at least ext away from p: scenes are smaller than that
RayEnd(p, v, ext) == VAdd(p, VScale(ext \div Max2(Abs(v[1]), Abs(v[2])) + 1, v))
LE(q, n) == RCmp(q, <<n, 1>>) <= 0
LT(q, n) == RCmp(q, <<n, 1>>) < 0
EQ(q, n) == q[2] = 1 /\ q[1] = n

-----------------------------------------------------------------------------
(* two circles: 0 apart, 1 nested, 2 one common point, 3 two common points, 4 the same *)
CircleState(d2, r, s) == IF d2 > (r + s) * (r + s) THEN 0
                         ELSE IF d2 < (r - s) * (r - s) THEN 1
                         ELSE IF d2 = 0 THEN 4
                         ELSE IF d2 = (r + s) * (r + s) \/ d2 = (r - s) * (r - s) THEN 2 ELSE 3
\* every reported point: <<squared distances to the two centres, side of the line of centres>>
CirclePts(st, r, s) == CASE st = 2 -> <<<<<<r * r, 1>>, <<s * s, 1>>, 0>>>>
                         [] st = 3 -> <<<<<<r * r, 1>>, <<s * s, 1>>, -1>>, <<<<r * r, 1>>, <<s * s, 1>>, 1>>>>
                         [] OTHER -> << >>
CircleOK(a, r) == LET st == CircleState(D2(a[1], a[3]), a[2], a[4])
                  IN  r[1] = st /\ r[2] = CirclePts(st, a[2], a[4]) /\ r[3] = st /\ r[4] = CirclePts(st, a[2], a[4])

-----------------------------------------------------------------------------
(* a reply about a first contact along c + t v with a convex set of which s2 is the squared distance at the start,
   m2 the least squared distance on the way.
   o = <<hit, sign of t, squared distance at t, approaching sign at t, consistent?>> *)
FirstOK(s2, m2, rr, o) ==
    IF o[1]
    THEN /\ LE(m2, rr) /\ o[5]
         /\ LE(s2, rr) => o[2] = 0
         /\ ~LE(s2, rr) => o[2] = 1 /\ EQ(o[3], rr) /\ (o[4] = -1 \/ EQ(m2, rr))
    ELSE ~LT(m2, rr)
\* touching is reported (exact tangency and touching at the start included)
FirstClosedOK(s2, m2, rr, o) == FirstOK(s2, m2, rr, o) /\ (o[1] <=> LE(m2, rr))
RayPtD2(p, v, c) == LET w == V(p, c) IN IF G(w, v) <= 0 THEN <<G(w, w), 1>> ELSE RNorm(G(w, w) * G(v, v) - G(w, v) * G(w, v), G(v, v))
RaySphereOK(p, v, c, rad, r) == FirstClosedOK(<<D2(p, c), 1>>, RayPtD2(p, v, c), rad * rad, r)
SegSphereOK(a, b, c, rad, r) == FirstClosedOK(<<D2(a, c), 1>>, PSD2(c, a, b), rad * rad, r)
CapsuleOK(a, b, p, q, rad, r) == FirstOK(PSD2(a, p, q), SSD2(a, b, p, q), rad * rad, r)

-----------------------------------------------------------------------------
(* both crossings of the line of a segment with a sphere: f(t) = |p0 + t d - c|^2 - r^2 = A t^2 + 2 B t + C
   reply: << >> if the line misses it, else per root <<within [0,1]?, sign of t, sign of t - 1, squared distance, on the line?>>,
   number of roots within the segment *)
Crossings(a, b, c, rad) ==
    LET A == D2(a, b)
        B == G(V(c, a), V(a, b))
        C == D2(a, c) - rad * rad
        disc == B * B - A * C
        \* where does the root (-B -+ sqrt disc) / A lie relative to x?  sign of -B - xA -+ sqrt disc
        SqSgn(k, lower) == IF lower THEN (IF k > 0 THEN Sgn(k * k - disc) ELSE IF disc = 0 /\ k = 0 THEN 0 ELSE -1)
                           ELSE (IF k < 0 THEN Sgn(disc - k * k) ELSE IF disc = 0 /\ k = 0 THEN 0 ELSE 1)
        root(lower) == LET s0 == SqSgn(-B, lower)
                           s1 == SqSgn(-B - A, lower)
                       IN  <<s0 >= 0 /\ s1 <= 0, s0, s1, <<rad * rad, 1>>, TRUE>>
    IN  IF disc < 0 THEN << >> ELSE <<root(TRUE), root(FALSE)>>
CrossOK(a, b, c, rad, r) == LET x == Crossings(a, b, c, rad)
                                n == IF x = << >> THEN 0 ELSE (IF x[1][1] THEN 1 ELSE 0) + (IF x[2][1] THEN 1 ELSE 0)
                            IN  r[1] = n /\ r[2] = (n > 0) /\ (n > 0 => r[3] = x)

\* a chain of segments: one visit per edge that meets the sphere, in order, none after the visitor's stop
SphereChainOK(w, c, rad, stop, r) ==
    LET hits(k) == LET x == Crossings(w[k], w[k + 1], c, rad) IN x # << >> /\ (x[1][1] \/ x[2][1])
        all == SelectSeq([k \in 1..(Len(w) - 1) |-> k], hits)
        seen == SubSeq(all, 1, Min2(stop, Len(all)))
    IN  /\ r[1] = (all # << >>) /\ Len(r[2]) = Len(seen)
        /\ \A m \in 1..Len(seen) : LET k == seen[m] v == r[2][m] IN v[1] = k /\ v[2] = k + 1 /\ CrossOK(w[k], w[k + 1], c, rad, v[3])

-----------------------------------------------------------------------------
(* spheres and boxes *)
SphereBoxOK(c, rad, lo, hi, r) == LET in == PointBoxD2(c, lo, hi) <= rad * rad
                                  IN  r[1] = in /\ r[2] = in /\ r[3] = [k \in 1..Len(c) |-> Clamp(c[k], lo[k], hi[k])]
SphereObbOK(c, v, w, p, rad, r) == LET m == PointBoxD2(Local(c, v, p), ObbLo(v, w), ObbHi(v, w))
                                       b == rad * rad * v[3] * v[3]
                                   IN  m = b \/ r[1] = (m < b)

-----------------------------------------------------------------------------
(* a moving sphere and the plane { x : n . x = k }, |n| = h; e is the signed distance times h *)
MovePlaneOK(c, rad, v, n, h, k, r) ==
    LET e == G(n, c) - k
        s == G(n, v)
        touch == Abs(e) - rad * h
        away == Sgn(e) * Sgn(s) >= 0
        foot(m) == QV(VAdd(VScale(h * h, c), VScale(-m, n)), h * h)
    IN  /\ r[1] = (touch <= 0 \/ ~away)
        /\ r[3] = away
        /\ r[1] => IF touch <= 0 THEN r[2] = (touch < 0) /\ r[4] = <<0, 1>> /\ r[5] = foot(e)
                   ELSE /\ r[2] /\ r[4] = RNorm(touch, Abs(s))
                        \* c + t v - (+-r) n / h
                        /\ r[5] = QV(VAdd(VAdd(VScale(Abs(s) * h, c), VScale(touch * h, v)), VScale(-Sgn(e) * rad * Abs(s), n)), Abs(s) * h)

-----------------------------------------------------------------------------
(* a moving sphere and a closed convex set with squared start distance s2 and least squared distance m2;
   o as above, q = <<squared distance from the centre to the contact point, squared distance from the contact point to the set>> *)
MoveOK(s2, m2, rr, o, q) ==
    /\ IF o[1] THEN LE(m2, rr) ELSE ~LT(m2, rr) \/ EQ(s2, rr)
    /\ o[1] => /\ o[5]
               /\ LE(s2, rr) => o[2] = 0
               /\ ~LE(s2, rr) => o[2] = 1 /\ EQ(o[3], rr) /\ (o[4] = -1 \/ EQ(m2, rr)) /\ EQ(q[1], rr) /\ EQ(q[2], 0)
\* already overlapping: the reported point is the nearest point of the set
NearestOK(s2, rr, o, q) == o[1] /\ LE(s2, rr) => q[1] = s2 /\ EQ(q[2], 0)
RaySegD2(c, v, a, b, ext) == SSD2(c, RayEnd(c, v, ext), a, b)
MoveSegOK(c, rad, v, a, b, r) ==
    /\ MoveOK(PSD2(c, a, b), RaySegD2(c, v, a, b, 32), rad * rad, r[1], r[2])
    /\ r[1][1] /\ ~LE(PSD2(c, a, b), rad * rad) =>
         \* an end-point contact is at an end point, any other is square to the segment
         IF r[3][1] THEN EQ(r[3][2], 0) ELSE r[3][3] = 0
BoxRing(lo, hi) == <<lo, <<hi[1], lo[2]>>, hi, <<lo[1], hi[2]>>>>
RayBoxD2(c, v, lo, hi, ext) == IF InBox(<<lo, hi>>, c) THEN <<0, 1>>
                          ELSE LET k == BoxRing(lo, hi) IN MinQ({RaySegD2(c, v, k[j], k[Nxt(k, j)], ext) : j \in 1..4})
MoveBoxOK(c, rad, v, lo, hi, r) ==
    /\ MoveOK(<<PointBoxD2(c, lo, hi), 1>>, RayBoxD2(c, v, lo, hi, 32), rad * rad, r[1], r[2])
    /\ NearestOK(<<PointBoxD2(c, lo, hi), 1>>, rad * rad, r[1], r[2])
MoveObbOK(ctr, ax, w, c, rad, v, r) ==
    LET lc == Local(ctr, ax, c)
        lv == Local(<<0, 0>>, ax, v)
        lo == ObbLo(ax, w)
        hi == ObbHi(ax, w)
        sc(q) == RNorm(q[1], q[2] * ax[3] * ax[3])
    IN  /\ MoveOK(sc(<<PointBoxD2(lc, lo, hi), 1>>), sc(RayBoxD2(lc, lv, lo, hi, 32 * ax[3])), rad * rad, r[1], r[2])
        /\ NearestOK(sc(<<PointBoxD2(lc, lo, hi), 1>>), rad * rad, r[1], r[2])
-----------------------------------------------------------------------------
(* two moving spheres: only relative motion matters; spheres that touch but do not approach have no contact to report *)
MoveSpheresOK(c0, r0, c1, r1, v0, v1, r) ==
    LET s == V(c0, c1)
        v == V(v0, v1)
        rr == (r0 + r1) * (r0 + r1)
        hit == G(s, s) < rr \/ (G(v, s) < 0 /\ LE(RayPtD2(c1, v, c0), rr))
    IN  /\ r[1][1] = hit /\ r[2] = hit
        /\ hit => FirstOK(<<G(s, s), 1>>, RayPtD2(c1, v, c0), rr, r[1])
        \* the contact point is on both spheres
        /\ hit /\ G(s, s) > rr => EQ(r[3][1], r0 * r0) /\ EQ(r[3][2], r1 * r1)
CircAccepts(rec) ==
    LET a == rec.a
        r == rec.r
    IN CASE rec.op = "cc" -> CircleOK(a, r)
         [] rec.op = "rs" -> RaySphereOK(a[1], a[2], a[3], a[4], r)
         [] rec.op = "sg1" -> SegSphereOK(a[1], a[2], a[3], a[4], r)
         [] rec.op = "spl" -> SphereChainOK(a[1], a[2], a[3], a[4], r)
         [] rec.op = "sg2" -> CrossOK(a[1], a[2], a[3], a[4], r)
         [] rec.op = "cap" -> CapsuleOK(a[1], a[2], a[3], a[4], a[5], r)
         [] rec.op = "sab" -> SphereBoxOK(a[1], a[2], a[3], a[4], r)
         [] rec.op = "sob" -> SphereObbOK(a[1], a[2], a[3], a[4], a[5], r)
         [] rec.op = "mpl" -> MovePlaneOK(a[1], a[2], a[3], a[4], a[5], a[6], r)
         [] rec.op = "msg" -> MoveSegOK(a[1], a[2], a[3], a[4], a[5], r)
         [] rec.op = "mab" -> MoveBoxOK(a[1], a[2], a[3], a[4], a[5], r)
         [] rec.op = "mob" -> MoveObbOK(a[1], a[2], a[3], a[4], a[5], a[6], r)
         [] rec.op = "mss" -> MoveSpheresOK(a[1], a[2], a[3], a[4], a[5], a[6], r)
=============================================================================
