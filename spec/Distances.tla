----------------------------- MODULE Distances -----------------------------
(***************************************************************************)
(* C07: minimal distances between points, segments, lines and boxes.       *)
(* Squared distances are rationals <<n, d>>, in any dimension.             *)
(***************************************************************************)
EXTENDS Boxes, Segments

V(a, b) == [k \in 1..Len(a) |-> b[k] - a[k]]
G(u, v) == SeqSum([k \in 1..Len(u) |-> u[k] * v[k]])
D2(a, b) == G(V(a, b), V(a, b))
\* point to segment (possibly a single point)
PSD2(p, a, b) == LET u == V(a, b)
                     w == V(a, p)
                     e == G(u, w)
                     f == G(u, u)
                 IN  IF e <= 0 THEN <<G(w, w), 1>>
                     ELSE IF e >= f THEN <<D2(b, p), 1>>
                     ELSE RNorm(G(w, w) * f - e * e, f)
Ends2(a, b, c, d) == {PSD2(a, c, d), PSD2(b, c, d), PSD2(c, a, b), PSD2(d, a, b)}
SSD2(a, b, c, d) == IF a # b /\ c # d /\ SegsMeet(a, b, c, d) THEN <<0, 1>> ELSE MinQ(Ends2(a, b, c, d))
\* segments in space: the common perpendicular when its feet are inside both, else an end point
SSD2Space(a, b, c, d) ==
    LET u == V(a, b)
        v == V(c, d)
        w == V(c, a)
        n == Cr3(u, v)
        m == G(n, n)
        s == G(u, v) * G(v, w) - G(v, v) * G(u, w)
        t == G(u, u) * G(v, w) - G(u, v) * G(u, w)
    IN  IF m > 0 /\ s >= 0 /\ s <= m /\ t >= 0 /\ t <= m THEN RNorm(G(n, w) * G(n, w), m) ELSE MinQ(Ends2(a, b, c, d))
\* r = <<d2, distance^2 by the other form, parameters in [0,1], points where the parameters say, d2 of the points>>
CloseOK(m, r) == r[1] = m /\ r[2] = m /\ r[3] = <<TRUE, TRUE>> /\ r[4] = <<0, 0>> /\ r[5] = m
PointSegOK(p, a, b, r) ==
    LET m == PSD2(p, a, b)
    IN  /\ \A k \in 1..3 : r[k] = m                           \* squared, squared (points form), square of the distance
        /\ \A k \in 4..6 : QOnSeg(a, b, r[k][1]) /\ r[k][2] = m
        /\ a # b => r[7] = RNorm(G(V(a, b), V(a, p)), D2(a, b))
        /\ r[8] = QNorm(<<a[1] + b[1], a[2] + b[2], 2>>) /\ r[9] = r[8]
PointSeg3OK(p, a, b, r) == LET m == PSD2(p, a, b) IN \A k \in 1..5 : r[k] = m
LineOK(p, a, b, r) == LET c == Cross(a, b, p)
                      IN  r[1] = Sgn(c) /\ r[2] = RNorm(c * c, D2(a, b)) /\ r[3] = r[2]
Excess(x, lo, hi) == IF x < lo THEN lo - x ELSE IF x > hi THEN x - hi ELSE 0
PointBoxD2(p, lo, hi) == SeqSum([k \in 1..Len(p) |-> LET e == Excess(p[k], lo[k], hi[k]) IN e * e])
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
PointBoxOK(p, lo, hi, r) == LET m == <<PointBoxD2(p, lo, hi), 1>>
                            IN  r[1] = m /\ r[2] = m /\ r[3] = [k \in 1..Len(p) |-> Clamp(p[k], lo[k], hi[k])]
Gap(a, b, c, d) == IF b < c THEN c - b ELSE IF d < a THEN a - d ELSE 0
BoxBoxD2(l1, u1, l2, u2) == SeqSum([k \in 1..Len(l1) |-> LET e == Gap(l1[k], u1[k], l2[k], u2[k]) IN e * e])
\* oriented box: centre c, first axis <<x, y, h>> (a unit vector (x/h, y/h)), half widths w; coordinates in its own frame, times h
Local(c, v, p) == <<Dt(<<v[1], v[2]>>, Sub(p, c)), Cr(<<v[1], v[2]>>, Sub(p, c))>>
ObbLo(v, w) == <<-w[1] * v[3], -w[2] * v[3]>>
ObbHi(v, w) == <<w[1] * v[3], w[2] * v[3]>>
PointObbOK(c, v, w, p, r) ==
    LET l == Local(c, v, p)
        m == RNorm(PointBoxD2(l, ObbLo(v, w), ObbHi(v, w)), v[3] * v[3])
        q == <<Clamp(l[1], -w[1] * v[3], w[1] * v[3]), Clamp(l[2], -w[2] * v[3], w[2] * v[3])>>
    IN  /\ r[1] = m /\ r[2] = m
        /\ r[3] = QNorm(<<c[1] * v[3] * v[3] + q[1] * v[1] - q[2] * v[2], c[2] * v[3] * v[3] + q[1] * v[2] + q[2] * v[1], v[3] * v[3]>>)
\* distance to the border of the box; a segment inside the box may also be said to have distance 0
SegObbOK(c, v, w, a, b, r) ==
    LET la == Local(c, v, a)
        lb == Local(c, v, b)
        lo == ObbLo(v, w)
        hi == ObbHi(v, w)
        k == <<lo, <<hi[1], lo[2]>>, hi, <<lo[1], hi[2]>>>>
        m == MinQ({SSD2(la, lb, k[j], k[Nxt(k, j)]) : j \in 1..4})
        ok(x) == x = RNorm(m[1], m[2] * v[3] * v[3]) \/ (x = <<0, 1>> /\ InBox(<<lo, hi>>, la) /\ InBox(<<lo, hi>>, lb))
    IN  ok(r[1]) /\ ok(r[2])
PieceOK(a, b, s, r) ==      \* split_segment: consecutive pieces of length <= s covering ab
    /\ Len(r) > 0 /\ r[1][1] = QOf(a) /\ r[Len(r)][2] = QOf(b)
    /\ \A k \in 1..Len(r) : r[k][1][3] # 0 /\ r[k][2][3] # 0 /\ QOnSeg(a, b, r[k][1]) /\ QOnSeg(a, b, r[k][2]) /\ RCmp(r[k][3], <<s * s, 1>>) <= 0
    /\ \A k \in 1..(Len(r) - 1) : r[k][2] = r[k + 1][1]
DistAccepts(rec) ==
    LET a == rec.a
        r == rec.r
    IN CASE rec.op = "ptseg" -> PointSegOK(a[1], a[2], a[3], r)
         [] rec.op = "ptseg3" -> PointSeg3OK(a[1], a[2], a[3], r)
         [] rec.op = "segseg" -> CloseOK(SSD2(a[1], a[2], a[3], a[4]), r)
         [] rec.op = "segseg3" -> r[1] = SSD2Space(a[1], a[2], a[3], a[4])
         [] rec.op = "ptptn" -> r[1] = <<D2(a[1], a[2]), 1>> /\ r[2] = r[1]
         [] rec.op = "eberly" -> r[1] = SSD2(a[1], a[2], a[3], a[4])
         [] rec.op = "ptline" -> LineOK(a[1], a[2], a[3], r)
         [] rec.op = "ptpt" -> r[1] = <<D2(a[1], a[2]), 1>> /\ r[2] = r[1] /\ r[3] = (D2(a[3], a[1]) < D2(a[3], a[2]))
         [] rec.op = "ptbox" -> PointBoxOK(a[1], a[2], a[3], r)
         [] rec.op = "boxbox" -> r[1] = <<BoxBoxD2(a[1], a[2], a[3], a[4]), 1>> /\ r[2] = r[1]
         [] rec.op = "ptobb" -> PointObbOK(a[1], a[2], a[3], a[4], r)
         [] rec.op = "segobb" -> SegObbOK(a[1], a[2], a[3], a[4], a[5], r)
         [] rec.op = "split" -> PieceOK(a[1], a[2], a[3], r)
=============================================================================
