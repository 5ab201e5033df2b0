------------------------------ MODULE Segments ------------------------------
(***************************************************************************)
(* C02/C03: what segment/segment, line/line, line/segment and ray/segment  *)
(* queries may answer.                                                     *)
(***************************************************************************)
EXTENDS Geo

\* intersection types as the library numbers them
NONE == 0
CROSSING == 1
OVERLAPPING == 2
ENDPOINT == 3

SegType(a, b, c, d) ==
    IF ~SegsMeet(a, b, c, d) THEN NONE
    ELSE IF SegsOverlap(a, b, c, d) THEN OVERLAPPING
    ELSE IF SegsCross(a, b, c, d) THEN CROSSING
    ELSE ENDPOINT

\* The one point shared by two segments that meet in exactly one point.
MeetPoint(a, b, c, d) == IF Parallel(a, b, c, d) THEN QOf(CHOOSE p \in Touches(a, b, c, d) : TRUE)
                         ELSE LineX(a, b, c, d)

\* Reply [t, ps]: type and the intersection points written.  Collinear segments which share just one end point
\* may be reported as an (improper) overlap whose two points coincide.
SegSegOK(a, b, c, d, t, ps) ==
    CASE SegType(a, b, c, d) = NONE -> t = NONE
      [] SegType(a, b, c, d) = CROSSING -> t = CROSSING /\ ps[1] = LineX(a, b, c, d)
      [] SegType(a, b, c, d) = OVERLAPPING ->
            t = OVERLAPPING /\ {ps[1], ps[2]} = {QOf(p) : p \in Touches(a, b, c, d)}
      [] OTHER ->
            \/ t = ENDPOINT /\ ps[1] = MeetPoint(a, b, c, d)
            \/ /\ t = OVERLAPPING /\ Parallel(a, b, c, d)
               /\ {ps[1], ps[2]} = {MeetPoint(a, b, c, d)}

SegTypeOK(a, b, c, d, t) ==
    \/ t = SegType(a, b, c, d)
    \/ t = OVERLAPPING /\ SegType(a, b, c, d) = ENDPOINT /\ Parallel(a, b, c, d)

-----------------------------------------------------------------------------
(* lines *)
LineLineType(a, b, c, d) == IF ~Parallel(a, b, c, d) THEN CROSSING
                            ELSE IF OnLine(a, b, c) THEN OVERLAPPING ELSE NONE
LineLineOK(a, b, c, d, t, p) ==
    /\ t = LineLineType(a, b, c, d)
    /\ t = CROSSING => p = LineX(a, b, c, d)
LineParamsOK(a, b, c, d, s, u) ==
    LET den == Cr(Sub(b, a), Sub(d, c))
    IN  den # 0 => /\ s = RNorm(Cr(Sub(c, a), Sub(d, c)), den)
                   /\ u = RNorm(Cr(Sub(c, a), Sub(b, a)), den)

LineSegType(a, b, c, d) ==
    IF Parallel(a, b, c, d) THEN (IF OnLine(a, b, c) THEN OVERLAPPING ELSE NONE)
    ELSE IF Orient(a, b, c) * Orient(a, b, d) > 0 THEN NONE
    ELSE IF Orient(a, b, c) * Orient(a, b, d) = 0 THEN ENDPOINT ELSE CROSSING
LineSegOK(a, b, c, d, t, p) ==
    /\ t = LineSegType(a, b, c, d)
    /\ t \in {CROSSING, ENDPOINT} => p = LineX(a, b, c, d)

-----------------------------------------------------------------------------
(* rays: origin o, direction <<x, y, h>> with x^2 + y^2 = h^2, i.e. the unit vector (x/h, y/h) *)
RaySegType(o, v, a, b) ==
    LET u  == <<v[1], v[2]>>
        ca == Cr(u, Sub(a, o))
        cb == Cr(u, Sub(b, o))
        den == Cr(u, Sub(b, a))                     \* = cb - ca
        num == Cr(Sub(a, o), Sub(b, a))             \* distance along the ray, times den / h
    IN  IF den = 0 THEN
            (IF ca # 0 \/ (Dt(u, Sub(a, o)) < 0 /\ Dt(u, Sub(b, o)) < 0) THEN NONE ELSE OVERLAPPING)
        ELSE IF Sgn(ca) * Sgn(cb) > 0 \/ Sgn(num) * Sgn(den) < 0 THEN NONE
        ELSE IF ca = 0 \/ cb = 0 THEN ENDPOINT ELSE CROSSING
\* distance from o to the line through a and b along v, as a rational
RayDist(o, v, a, b) == RNorm(v[3] * Cr(Sub(a, o), Sub(b, a)), Cr(<<v[1], v[2]>>, Sub(b, a)))
RayPoint(o, v, a, b) == LET den == Cr(<<v[1], v[2]>>, Sub(b, a))
                            num == Cr(Sub(a, o), Sub(b, a))
                        IN  QNorm(<<o[1] * den + num * v[1], o[2] * den + num * v[2], den>>)
\* the part of a collinear segment covered by the ray
RayCover(o, v, a, b) == LET u == <<v[1], v[2]>>
                            S == {p \in {a, b} : Dt(u, Sub(p, o)) >= 0}
                        IN  IF Cardinality(S) = 2 THEN S ELSE S \cup {o}
RaySegOK(o, v, a, b, t, len, p0, p1) ==
    /\ t = RaySegType(o, v, a, b)
    /\ t \in {CROSSING, ENDPOINT} => len = RayDist(o, v, a, b) /\ p0 = RayPoint(o, v, a, b)
    /\ t = OVERLAPPING =>
          LET u == <<v[1], v[2]>>
              C == RayCover(o, v, a, b)
              n == IF o \in C THEN o ELSE CHOOSE p \in C : \A q \in C : Dt(u, Sub(p, o)) <= Dt(u, Sub(q, o))
          IN  /\ {p0, p1} = {QOf(p) : p \in C}
              /\ p0 = QOf(n)                              \* nearest one first
              /\ len = RNorm(Dt(u, Sub(n, o)), v[3])

RayLineType(o, v, a, b) == IF Cr(<<v[1], v[2]>>, Sub(b, a)) = 0 THEN (IF OnLine(a, b, o) THEN OVERLAPPING ELSE NONE)
                           ELSE IF Sgn(Cr(Sub(a, o), Sub(b, a))) * Sgn(Cr(<<v[1], v[2]>>, Sub(b, a))) < 0 THEN NONE
                           ELSE CROSSING

-----------------------------------------------------------------------------
(* segments in space *)
Sub3(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Dt3(u, v)  == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
Cr3(u, v)  == <<u[2] * v[3] - u[3] * v[2], u[3] * v[1] - u[1] * v[3], u[1] * v[2] - u[2] * v[1]>>
Zero3 == <<0, 0, 0>>
\* drop coordinate k
Drop(k, p) == IF k = 1 THEN <<p[2], p[3]>> ELSE IF k = 2 THEN <<p[1], p[3]>> ELSE <<p[1], p[2]>>
NonZero(n) == CHOOSE k \in 1..3 : n[k] # 0
Q3Norm(P) == LET g == Gcd(Gcd(P[1], P[2]), Gcd(P[3], P[4]))
                 s == Sgn(P[4])
             IN  <<s * (P[1] \div g), s * (P[2] \div g), s * (P[3] \div g), Abs(P[4]) \div g>>
Q3Along(a, b, n, d) == Q3Norm(<<a[1] * d + n * (b[1] - a[1]), a[2] * d + n * (b[2] - a[2]), a[3] * d + n * (b[3] - a[3]), d>>)
Q3Of(p) == <<p[1], p[2], p[3], 1>>
\* two segments of one plane: a projection along a coordinate axis that keeps the plane (the line) two (one) dimensional
Proj(a, b, c, d) == LET n == Cr3(Sub3(b, a), Sub3(d, c))
                    IN  IF n # Zero3 THEN NonZero(n) ELSE (NonZero(Sub3(b, a)) % 3) + 1
Coplanar(a, b, c, d) == Dt3(Sub3(c, a), Cr3(Sub3(b, a), Sub3(d, c))) = 0
Parallel3(a, b, c, d) == Cr3(Sub3(b, a), Sub3(d, c)) = Zero3
Collinear3(a, b, c) == Cr3(Sub3(b, a), Sub3(c, a)) = Zero3
OnSeg3(a, b, p) == Collinear3(a, b, p) /\ Dt3(Sub3(a, p), Sub3(b, p)) <= 0
Touches3(a, b, c, d) == {p \in {c, d} : OnSeg3(a, b, p)} \cup {p \in {a, b} : OnSeg3(c, d, p)}
SegType3(a, b, c, d) ==
    IF Parallel3(a, b, c, d) THEN
        (LET n == Cardinality(Touches3(a, b, c, d)) IN IF n = 0 THEN NONE ELSE IF n = 1 THEN ENDPOINT ELSE OVERLAPPING)
    ELSE IF ~Coplanar(a, b, c, d) THEN NONE
    ELSE LET k == Proj(a, b, c, d) IN SegType(Drop(k, a), Drop(k, b), Drop(k, c), Drop(k, d))
LineX3(a, b, c, d) == LET k == Proj(a, b, c, d)
                          u == Sub(Drop(k, b), Drop(k, a))
                          v == Sub(Drop(k, d), Drop(k, c))
                      IN  Q3Along(a, b, Cr(Sub(Drop(k, c), Drop(k, a)), v), Cr(u, v))
SegSeg3OK(a, b, c, d, t, ps) ==
    LET T == SegType3(a, b, c, d) IN
    CASE T = NONE -> t = NONE
      [] T = CROSSING -> t = CROSSING /\ ps[1] = LineX3(a, b, c, d)
      [] T = OVERLAPPING -> t = OVERLAPPING /\ {ps[1], ps[2]} = {Q3Of(p) : p \in Touches3(a, b, c, d)}
      [] OTHER -> IF Parallel3(a, b, c, d)
                  THEN LET m == Q3Of(CHOOSE p \in Touches3(a, b, c, d) : TRUE)
                       IN  (t = ENDPOINT /\ ps[1] = m) \/ (t = OVERLAPPING /\ {ps[1], ps[2]} = {m})
                  ELSE t = ENDPOINT /\ ps[1] = LineX3(a, b, c, d)

-----------------------------------------------------------------------------
(* recorded executions *)
SegAccepts(rec) == LET a == rec.a
                       r == rec.r
                   IN
    CASE rec.op = "ssi"  -> /\ SegSegOK(a[1], a[2], a[3], a[4], r[1], r[2])
                            /\ SegSegOK(a[1], a[2], a[3], a[4], r[3], r[4])
                            /\ SegTypeOK(a[1], a[2], a[3], a[4], r[5])
      [] rec.op = "ssk" -> \A i \in 1..3 : SegTypeOK(a[1], a[2], a[3], a[4], r[i])
      [] rec.op = "ssi3" -> SegSeg3OK(a[1], a[2], a[3], a[4], r[1], r[2])
LineAccepts(rec) == LET a == rec.a
                        r == rec.r
                    IN
    CASE rec.op = "lines" -> /\ LineLineOK(a[1], a[2], a[3], a[4], r[1], r[2])
                             /\ LineLineOK(a[1], a[2], a[3], a[4], r[3], r[4])
                             /\ LineParamsOK(a[1], a[2], a[3], a[4], r[5], r[6])
                             /\ LineSegOK(a[1], a[2], a[3], a[4], r[7], r[8])
                             /\ LineSegOK(a[1], a[2], a[3], a[4], r[9], r[10])
      [] rec.op = "ray" -> /\ RaySegOK(a[1], a[2], a[3], a[4], r[1], r[2], r[3], r[4])
                           /\ RaySegOK(a[1], a[2], a[3], a[4], r[5], r[6], r[7], r[8])
                           /\ r[9] = r[1] /\ r[10] = r[1]
      [] rec.op = "rayline" -> LET t == RayLineType(a[1], a[2], a[3], a[4])
                               IN  /\ r[1] = (t # NONE) /\ r[2] = (t = OVERLAPPING)
                                   /\ t = CROSSING => r[3] = RayDist(a[1], a[2], a[3], a[4]) /\ r[4] = RayPoint(a[1], a[2], a[3], a[4])
=============================================================================
