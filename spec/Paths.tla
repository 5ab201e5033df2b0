------------------------------- MODULE Paths -------------------------------
(***************************************************************************)
(* C17: polylines as curves.  A base polyline has integer vertices and     *)
(* integer edge lengths, so arc length is exact.  The state of an editing  *)
(* session is the part of the base curve that is left: the arc from        *)
(* position from to position to, or nothing.                               *)
(***************************************************************************)
EXTENDS Geo

RAdd(a, b) == RNorm(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
RSub(a, b) == RNorm(a[1] * b[2] - b[1] * a[2], a[2] * b[2])
RHalf(a) == RNorm(a[1], 2 * a[2])
RLe(a, b) == RCmp(a, b) <= 0
RLt(a, b) == RCmp(a, b) < 0
RECURSIVE RootFrom(_, _)
RootFrom(n, k) == IF k * k >= n THEN k ELSE RootFrom(n, k + 1)
Root(n) == RootFrom(n, 0)                       \* of a perfect square
EdgeLen(b, k) == Root(Dist2(b[k], b[k + 1]))
RECURSIVE ArcTo(_, _)
ArcTo(b, k) == IF k = 1 THEN 0 ELSE ArcTo(b, k - 1) + EdgeLen(b, k - 1)      \* arc length up to vertex k
Total(b) == ArcTo(b, Len(b))
\* first edge that reaches position q
EdgeAt(b, q) == CHOOSE k \in 1..(Len(b) - 1) : RLe(<<ArcTo(b, k), 1>>, q) /\ RLe(q, <<ArcTo(b, k + 1), 1>>)
                                               /\ (k = 1 \/ RLt(<<ArcTo(b, k), 1>>, q))
PointAt(b, q) == LET k == EdgeAt(b, q)
                     s == RSub(q, <<ArcTo(b, k), 1>>)
                 IN  QAlong(b[k], b[k + 1], s[1], s[2] * EdgeLen(b, k))
RECURSIVE VerticesBetween(_, _, _, _)
VerticesBetween(b, f, t, k) == IF k > Len(b) THEN <<>>
    ELSE (IF RLt(f, <<ArcTo(b, k), 1>>) /\ RLt(<<ArcTo(b, k), 1>>, t) THEN <<QOf(b[k])>> ELSE <<>>) \o VerticesBetween(b, f, t, k + 1)
\* the arc of b from position f to position t
SubPath(b, f, t) == IF RLt(f, t) THEN <<PointAt(b, f)>> \o VerticesBetween(b, f, t, 1) \o <<PointAt(b, t)>> ELSE <<>>
\* the same curve: repeated points do not matter
RECURSIVE Squeeze(_)
Squeeze(s) == IF Len(s) < 2 THEN s ELSE IF s[1] = s[2] THEN Squeeze(Tail(s)) ELSE <<s[1]>> \o Squeeze(Tail(s))

-----------------------------------------------------------------------------
(* editing sessions: operations <<code, n, d>> with amount n/d             *)
FRONT == 1
BACK == 2
BOTH == 3
FIRST == 4
SECOND == 5
Empty(s) == ~RLt(s[1], s[2])
PathStep(s, op) ==
    LET q == <<op[2], op[3]>>
        L == RSub(s[2], s[1])
    IN  CASE Empty(s) -> s
          [] op[1] = FRONT -> <<RAdd(s[1], q), s[2]>>
          [] op[1] = BACK -> <<s[1], RSub(s[2], q)>>
          [] op[1] = BOTH -> <<RAdd(s[1], q), RSub(s[2], q)>>
          [] op[1] = FIRST -> <<s[1], IF RLt(q, L) THEN RAdd(s[1], q) ELSE s[2]>>
          [] op[1] = SECOND -> <<IF RLt(q, L) THEN RAdd(s[1], q) ELSE s[2], s[2]>>
\* what is shown after an operation: <<points, length, middle>>; nothing but (at most) one point when the path is used up
Shown(b, s, r) == IF Empty(s) THEN Len(Squeeze(r[1])) <= 1
                  ELSE /\ Squeeze(r[1]) = Squeeze(SubPath(b, s[1], s[2]))
                       /\ r[2] = RSub(s[2], s[1])
                       /\ r[3] = PointAt(b, RAdd(s[1], RHalf(RSub(s[2], s[1]))))
RECURSIVE Edits(_, _, _, _, _)
Edits(b, s, ops, r, k) == k > Len(r) \/ LET t == PathStep(s, ops[k]) IN Shown(b, t, r[k]) /\ Edits(b, t, ops, r, k + 1)
\* the session stops when nothing is left
EditsOK(b, ops, r) == LET s0 == <<<<0, 1>>, <<Total(b), 1>>>>
                      IN  /\ Edits(b, s0, ops, r, 1)
                          /\ Len(r) < Len(ops) => \E k \in 1..Len(r) : Len(Squeeze(r[k][1])) <= 1

-----------------------------------------------------------------------------
(* positions on a polyline: <<edge index from 0, points (none when the position is a vertex)>> *)
PositionOK(b, q, r) ==
    IF RLe(<<Total(b), 1>>, q) THEN r = <<Len(b) - 2, <<>>>>
    ELSE LET k == CHOOSE k \in 1..(Len(b) - 1) : RLe(<<ArcTo(b, k), 1>>, q) /\ RLt(q, <<ArcTo(b, k + 1), 1>>)
         IN  /\ r[1] = k - 1
             /\ r[2] = (IF q = <<ArcTo(b, k), 1>> THEN <<>> ELSE <<PointAt(b, q)>>)
\* <<length before p, length after p, edge>> for a point of the curve (first edge that has it)
LocateOK(b, p, r) ==
    LET on == {k \in 1..(Len(b) - 1) : OnSeg(b[k], b[k + 1], p)}
        k == SetMin(on)
        before == ArcTo(b, k) + Root(Dist2(b[k], p))
    IN  on # {} => r = <<<<before, 1>>, <<Total(b) - before, 1>>, k - 1>>
\* running lengths up to and including the first beyond the cut off (-1: none)
RunningOK(b, cut, r) ==
    LET m == IF cut < 0 \/ Total(b) <= cut THEN Len(b) - 1 ELSE SetMin({k \in 1..(Len(b) - 1) : ArcTo(b, k + 1) > cut})
    IN  r = [k \in 1..m |-> <<ArcTo(b, k + 1), 1>>]
LengthOK(b, r) == r = <<<<Total(b), 1>>, <<Total(b) + Root(Dist2(b[Len(b)], b[1])), 1>>>>

-----------------------------------------------------------------------------
(* simplification within eps = e/64: kept is the sequence of kept indices from 0 *)
\* distance of b[m] from the chord b[i]b[j], as a comparison with e/64
FarRel(b, i, j, m, e) == IF b[i] = b[j] THEN Sgn(4096 * Dist2(b[i], b[m]) - e * e)
                         ELSE Sgn(4096 * Cross(b[i], b[j], b[m]) * Cross(b[i], b[j], b[m]) - e * e * Dist2(b[i], b[j]))
Dev(b, i, j, m) == IF b[i] = b[j] THEN Dist2(b[i], b[m]) ELSE Abs(Cross(b[i], b[j], b[m]))
RECURSIVE Rdp(_, _, _, _, _)
Rdp(b, K, e, i, j) ==
    LET inner == (i + 1)..(j - 1)
        far == {m \in inner : FarRel(b, i, j, m, e) > 0}
        most == {m \in far : \A h \in far : Dev(b, i, j, m) >= Dev(b, i, j, h)}
    IN  IF far = {} THEN K \cap inner = {} ELSE \E m \in most \cap K : Rdp(b, K, e, i, m) /\ Rdp(b, K, e, m, j)
SimplifyOK(b, e, r) == /\ r # <<>> /\ r[1] = 0 /\ r[Len(r)] = Len(b) - 1
                       /\ \A k \in 1..(Len(r) - 1) : r[k] < r[k + 1]
                       /\ Rdp(b, {x + 1 : x \in Range(r)}, e, 1, Len(b))

-----------------------------------------------------------------------------
(* removing duplicate and straight-through vertices of curves that do not fold back on themselves *)
Runs(s) == Squeeze(s)
Cyc(s, k) == s[((k - 1) % Len(s)) + 1]
Straight(a, b, c) == Cross(a, b, c) = 0
Corners(s) == LET d == Runs(s) IN SelectSeq([k \in 1..Len(d) |-> <<d[k], k = 1 \/ k = Len(d) \/ ~Straight(d[IF k = 1 THEN 1 ELSE k - 1], d[k], d[IF k = Len(d) THEN k ELSE k + 1])>>],
                                            LAMBDA x : x[2])
Plain(s) == [k \in 1..Len(s) |-> s[k][1]]
\* open: exactly the corners and the two ends
OpenCornersOK(b, r) == r = Plain(Corners(b))
\* closed: nothing is lost or added, the start stays, and no vertex after the start is straight or repeated
CloseUp(s) == LET d == Squeeze(s) IN IF Len(d) > 1 /\ d[Len(d)] = d[1] THEN SubSeq(d, 1, Len(d) - 1) ELSE d
RingCornersOK(b, r) ==
    LET d == CloseUp(b)
        keep == SelectSeq([k \in 1..Len(d) |-> <<d[k], k = 1 \/ ~Straight(d[k - 1], d[k], Cyc(d, k + 1))>>], LAMBDA x : x[2])
    IN  r = Plain(keep)
\* indices (from 0) of the vertices that removing would take away: exactly the straight ones after the start
StraightsOK(b, r) == Range(r) = {k - 1 : k \in {k \in 2..Len(b) : Straight(b[k - 1], b[k], Cyc(b, k + 1))}}
RingDistinctOK(b, r) == r = CloseUp(b)
OpenDistinctOK(b, r) == r = Squeeze(b)
\* thinning with "touching" widened to squared distances up to k: a vertex goes when it touches the last one KEPT, so
\* that a long run of near vertices cannot vanish altogether; r: vertices kept of the curve, of the ring, ring vertices named
RECURSIVE Thin(_, _, _, _)
Thin(b, k, j, keep) == IF j > Len(b) THEN keep
                       ELSE Thin(b, k, j + 1, IF Dist2(b[keep[Len(keep)]], b[j]) > k THEN Append(keep, j) ELSE keep)
ThinOK(b, k, r) == LET open == Thin(b, k, 2, <<1>>)
                       ring == IF Len(open) > 1 /\ Dist2(b[1], b[open[Len(open)]]) <= k THEN SubSeq(open, 1, Len(open) - 1) ELSE open
                   IN  /\ r[1] = [i \in 1..Len(open) |-> open[i] - 1]
                       /\ r[2] = [i \in 1..Len(ring) |-> ring[i] - 1]
                       /\ Range(r[3]) = (0..Len(b) - 1) \ Range(r[2])
\* indices of repeated vertices: what is left when they go has no repetition
RepeatsOK(b, r) == LET keep == SelectSeq([k \in 1..Len(b) |-> <<b[k], (k - 1) \notin Range(r)>>], LAMBDA x : x[2])
                   IN  Plain(keep) = CloseUp(b)

-----------------------------------------------------------------------------
(* curvature.  r: signed curvature at every vertex times the product of the three side lengths (an integer), the same
   for the turning at every vertex, inflections, pieces *)
Bend(b, k) == IF k = 1 \/ k = Len(b) THEN 0 ELSE Cross(b[k - 1], b[k], b[k + 1])
CurvatureOK(b, r) == r = [k \in 1..Len(b) |-> <<2 * Bend(b, k), 1>>]
\* a bend is to the right or it is not: straight vertices and ends count as not bending to the right
RightBend(b, k) == Bend(b, k) < 0
InflectionsOK(b, r) == r = SelectSeq([k \in 1..Len(b) |-> k - 1], LAMBDA i : i > 0 /\ RightBend(b, i + 1) # RightBend(b, i))
\* pieces put together give the curve, each begins where the one before it ended
RECURSIVE Glue(_, _)
Glue(ps, k) == IF k > Len(ps) THEN <<>> ELSE (IF k = 1 THEN ps[1] ELSE Tail(ps[k])) \o Glue(ps, k + 1)
PiecesOK(b, ps) == /\ \A k \in 1..Len(ps) : Len(ps[k]) >= 2
                   /\ \A k \in 1..(Len(ps) - 1) : ps[k][Len(ps[k])] = ps[k + 1][1]
                   /\ Glue(ps, 1) = [k \in 1..Len(b) |-> QOf(b[k])]
RECURSIVE Starts(_, _)
Starts(ps, k) == IF k = 1 THEN {1} ELSE {1 + SumTo([i \in 1..(k - 1) |-> Len(ps[i]) - 1], k - 1)} \cup Starts(ps, k - 1)
\* cut exactly where the bend changes sign
InflectionPiecesOK(b, ps) == PiecesOK(b, ps) /\ Starts(ps, Len(ps)) \ {1} = {k \in 2..(Len(b) - 1) : RightBend(b, k) # RightBend(b, k - 1)}
\* fixed point 10^5: turning per vertex, total, total absolute
TurningOK(b, r) == /\ Len(r[1]) = Len(b)
                   /\ \A k \in 1..Len(b) : Bend(b, k) = 0 => r[1][k] = 0
                   /\ \A k \in 1..Len(b) : r[1][k] >= 0
                   /\ Abs(r[3] - SumTo(r[1], Len(b))) <= Len(b)
                   /\ Abs(r[2] - SumTo([k \in 1..Len(b) |-> Sgn(Bend(b, k)) * r[1][k]], Len(b))) <= Len(b)
\* every piece but the last is the shortest whose turning exceeds the limit
RECURSIVE TurnSum(_, _, _)
TurnSum(t, i, j) == IF i > j THEN 0 ELSE t[i] + TurnSum(t, i + 1, j)
TurnPiecesOK(b, t, lim, ps) ==
    /\ PiecesOK(b, ps)
    /\ \A k \in 1..Len(ps) :
         LET s == 1 + SumTo([i \in 1..(k - 1) |-> Len(ps[i]) - 1], k - 1)
             e == s + Len(ps[k]) - 1
         IN  /\ (k < Len(ps) \/ e < Len(b)) => TurnSum(t, s + 1, e) >= lim - Len(b)
             /\ TurnSum(t, s + 1, e - 1) <= lim + Len(b)

-----------------------------------------------------------------------------
(* which side of a polyline a point lies on, judged at a nearest place *)
NearDist(b, k, p) ==    \* squared distance to edge k as a rational
    LET a == b[k]
        c == b[k + 1]
    IN  IF Dot(a, c, p) <= 0 THEN <<Dist2(a, p), 1>> ELSE IF Dot(c, a, p) <= 0 THEN <<Dist2(c, p), 1>>
        ELSE RNorm(Cross(a, c, p) * Cross(a, c, p), Dist2(a, c))
Between(lo, hi, v) == IF Cr(lo, hi) > 0 THEN Cr(lo, v) > 0 /\ Cr(v, hi) > 0 ELSE ~(Cr(hi, v) >= 0 /\ Cr(v, lo) >= 0)
SideAtVertex(b, k, p) ==
    IF k = 1 THEN Orient(b[1], b[2], p)
    ELSE IF k = Len(b) THEN Orient(b[k - 1], b[k], p)
    ELSE IF Orient(b[k - 1], b[k], b[k + 1]) = 0 THEN Orient(b[k - 1], b[k], p)
    ELSE IF Between(Sub(b[k + 1], b[k]), Sub(b[k - 1], b[k]), Sub(p, b[k])) THEN 1 ELSE -1
SideOfEdge(b, k, p) == IF Dot(b[k], b[k + 1], p) <= 0 THEN SideAtVertex(b, k, p)
                       ELSE IF Dot(b[k + 1], b[k], p) <= 0 THEN SideAtVertex(b, k + 1, p)
                       ELSE Orient(b[k], b[k + 1], p)
\* the side is also told from any segment that is named as the nearest; a point beyond the tip of a fold is on neither side
Fold(b, k) == k \in 2..(Len(b) - 1) /\ Orient(b[k - 1], b[k], b[k + 1]) = 0 /\ Dot(b[k], b[k - 1], b[k + 1]) > 0
AtFold(b, k, p) == \/ Dot(b[k], b[k + 1], p) <= 0 /\ Fold(b, k)
                   \/ Dot(b[k + 1], b[k], p) <= 0 /\ Fold(b, k + 1)
SidesOK(b, p, rs) == /\ Len(rs) >= 1
                     /\ \A i \in DOMAIN rs : LET k == rs[i][1] + 1
                                             IN rs[i][2] = (IF OnSeg(b[k], b[k + 1], p) THEN 0 ELSE SideOfEdge(b, k, p)) \/ (AtFold(b, k, p) /\ ~OnSeg(b[k], b[k + 1], p))
SideOK(b, p, r) ==
    LET E == 1..(Len(b) - 1)
        near == {k \in E : \A j \in E : RLe(NearDist(b, k, p), NearDist(b, j, p))}
    IN  IF \E k \in E : OnSeg(b[k], b[k + 1], p) THEN r = 0 ELSE \E k \in near : r = SideOfEdge(b, k, p)

-----------------------------------------------------------------------------
(* the border of a polygon as a curve *)
RingAt(poly, k) == poly[((k - 1) % Len(poly)) + 1]
BorderEdges(poly, p) == {k \in 1..Len(poly) : OnSeg(poly[k], RingAt(poly, k + 1), p)}
OnEdgeOK(poly, p, r) == IF BorderEdges(poly, p) = {} THEN r = -1 ELSE r + 1 \in BorderEdges(poly, p)
RingDist(poly, k, p) == NearDist(<<poly[k], RingAt(poly, k + 1)>>, 1, p)
NearEdgeOK(poly, p, r) == /\ r + 1 \in 1..Len(poly)
                          /\ \A j \in 1..Len(poly) : RLe(RingDist(poly, r + 1, p), RingDist(poly, j, p))
\* the arc reaching ext to both sides of p, as a path of an unrolled border that repeats often enough
Unroll(poly, n) == [k \in 1..(n * Len(poly) + 1) |-> RingAt(poly, k)]
ArcAroundOK(poly, p, ext, r) ==
    LET n == 2 * (ext[1] \div (ext[2] * Total(Unroll(poly, 1))) + 1) + 1
        u == Unroll(poly, n)
        k == CHOOSE k \in BorderEdges(poly, p) : TRUE
        mid == Total(Unroll(poly, 1)) * (n \div 2) + ArcTo(Unroll(poly, 1), k) + Root(Dist2(RingAt(poly, k), p))
        back == SubPath(u, RSub(<<mid, 1>>, ext), <<mid, 1>>)
        on == SubPath(u, <<mid, 1>>, RAdd(<<mid, 1>>, ext))
        \* the middle point itself may be left out when it is no vertex
        full == Squeeze(back \o on)
        bare == Squeeze(SubSeq(back, 1, Len(back) - 1) \o Tail(on))
    IN  Squeeze(r) = full \/ (~IsVertex(poly, p) /\ Squeeze(r) = bare)

PathAccepts(rec) ==
    LET a == rec.a
        r == rec.r
    IN  CASE rec.op = "edits" -> EditsOK(a[1], a[2], r)
          [] rec.op = "position" -> PositionOK(a[1], a[2], r)
          [] rec.op = "locate" -> LocateOK(a[1], a[2], r)
          [] rec.op = "running" -> RunningOK(a[1], a[2], r)
          [] rec.op = "length" -> LengthOK(a[1], r)
          [] rec.op = "simplify" -> SimplifyOK(a[1], a[2], r)
          [] rec.op = "corners" -> OpenCornersOK(a[1], r)
          [] rec.op = "ringcorners" -> RingCornersOK(a[1], r)
          [] rec.op = "straights" -> StraightsOK(a[1], r)
          [] rec.op = "distinct" -> OpenDistinctOK(a[1], r)
          [] rec.op = "ringdistinct" -> RingDistinctOK(a[1], r)
          [] rec.op = "thin" -> ThinOK(a[1], a[2], r)
          [] rec.op = "repeats" -> RepeatsOK(a[1], r)
          [] rec.op = "curvature" -> /\ CurvatureOK(a[1], r[1]) /\ InflectionsOK(a[1], r[2]) /\ InflectionPiecesOK(a[1], r[3])
                                     /\ TurningOK(a[1], r[4]) /\ TurnPiecesOK(a[1], r[4][1], a[2], r[5])
          [] rec.op = "side" -> SideOK(a[1], a[2], r[1]) /\ SidesOK(a[1], a[2], r[2])
          [] rec.op = "ringedge" -> OnEdgeOK(a[1], a[2], r[1]) /\ NearEdgeOK(a[1], a[2], r[2])
                                    /\ (IF BorderEdges(a[1], a[2]) = {} THEN NearEdgeOK(a[1], a[2], r[3]) ELSE r[3] + 1 \in BorderEdges(a[1], a[2]))
          [] rec.op = "around" -> ArcAroundOK(a[1], a[2], a[3], r)
=============================================================================
