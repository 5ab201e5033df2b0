-------------------------------- MODULE Boxes --------------------------------
(***************************************************************************)
(* C04: axis aligned boxes <<lo, hi>> in the plane and in space.           *)
(***************************************************************************)
EXTENDS Geo

Dims(p) == 1..Len(p)
InBox(b, p) == \A k \in Dims(p) : b[1][k] <= p[k] /\ p[k] <= b[2][k]
BoxOf(S) == LET p0 == CHOOSE p \in S : TRUE
            IN  << [k \in Dims(p0) |-> SetMin({p[k] : p \in S})], [k \in Dims(p0) |-> SetMax({p[k] : p \in S})] >>
BoxesMeet(b, c) == \A k \in Dims(b[1]) : b[1][k] <= c[2][k] /\ c[1][k] <= b[2][k]
BoxWithin(b, c) == \A k \in Dims(b[1]) : c[1][k] <= b[1][k] /\ b[2][k] <= c[2][k]      \* b inside c
Corners(b) == << b[1], <<b[2][1], b[1][2]>>, b[2], <<b[1][1], b[2][2]>> >>

-----------------------------------------------------------------------------
(* { t : p + t d in box } = [max Lower, min Upper], all axes with d = 0 permitting *)
Quot(n, d) == IF d > 0 THEN <<n, d>> ELSE <<-n, -d>>
Lower(p, d, b) == {Quot((IF d[k] > 0 THEN b[1][k] ELSE b[2][k]) - p[k], d[k]) : k \in {j \in Dims(p) : d[j] # 0}}
Upper(p, d, b) == {Quot((IF d[k] > 0 THEN b[2][k] ELSE b[1][k]) - p[k], d[k]) : k \in {j \in Dims(p) : d[j] # 0}}
FlatOK(p, d, b) == \A k \in Dims(p) : d[k] = 0 => b[1][k] <= p[k] /\ p[k] <= b[2][k]
MaxQ(S) == CHOOSE x \in S : \A y \in S : RCmp(y, x) <= 0
MinQ(S) == CHOOSE x \in S : \A y \in S : RCmp(x, y) <= 0
Feasible(L, U) == \A x \in L : \A y \in U : RCmp(x, y) <= 0
Tight(L, U) == \E x \in L : \E y \in U : RCmp(x, y) = 0
Zero == <<0, 1>>
One == <<1, 1>>
RayHits(p, d, b) == FlatOK(p, d, b) /\ Feasible(Lower(p, d, b) \cup {Zero}, Upper(p, d, b))
SegHits(p, q, b) == LET d == [k \in Dims(p) |-> q[k] - p[k]]
                    IN  FlatOK(p, d, b) /\ Feasible(Lower(p, d, b) \cup {Zero}, Upper(p, d, b) \cup {One})
RayEntry(p, d, b) == MaxQ(Lower(p, d, b) \cup {Zero})
RayExit(p, d, b)  == MinQ(Upper(p, d, b))
At(p, d, t) == QNorm(<<p[1] * t[2] + t[1] * d[1], p[2] * t[2] + t[1] * d[2], t[2]>>)
\* the only contact is a single point and 1/d is not a binary fraction: rounding may decide either way
Grazing(p, d, b) == /\ FlatOK(p, d, b)
                    /\ Tight(Lower(p, d, b) \cup {Zero}, Upper(p, d, b))
                    /\ \E k \in Dims(p) : Abs(d[k]) \notin {0, 1, 2, 4, 8}
RayBoxOK(p, d, b, r) ==
    LET h == RayHits(p, d, b)
        in == InBox(b, p)
    IN  /\ r[1] = r[5] /\ (r[1] = h \/ (h /\ Grazing(p, d, b)))
        /\ r[1] => LET e == RayEntry(p, d, b)
                       x == RayExit(p, d, b)
                   IN  /\ r[2] = in /\ r[6] = in
                       /\ r[3] = RNorm(e[1], e[2]) /\ r[4] = At(p, d, IF in THEN x ELSE e)
                       /\ r[7] = RNorm(e[1], e[2]) /\ r[8] = At(p, d, e)
                       /\ r[9] = RNorm(x[1], x[2]) /\ r[10] = At(p, d, x)
SegBoxOK(p, q, b, r) ==
    LET h == SegHits(p, q, b)
        d == Sub(q, p)
    IN  /\ r[1] = h /\ r[2] = h
        /\ (r[2] /\ d # <<0, 0>>) =>
              /\ r[3] = At(p, d, MaxQ(Lower(p, d, b) \cup {Zero}))
              /\ r[4] = At(p, d, MinQ(Upper(p, d, b) \cup {One}))
PolylineMeetsBox(ps, b) == \E k \in 1..(Len(ps) - 1) : SegHits(ps[k], ps[k + 1], b)
PolygonMeetsBox(ps, b) == \/ \E k \in 1..Len(ps) : SegHits(ps[k], ps[Nxt(ps, k)], b)
                          \/ StrictlyInside(ps, b[1])

-----------------------------------------------------------------------------
BoundsOK(ps, i, j, r) ==
    LET all == BoxOf(Range(ps))
        part == BoxOf({ps[k] : k \in i..j})
    IN  r[1] = all /\ r[2] = all /\ r[3] = part /\ r[4] = all /\ r[5] = all /\ r[6] = BoxOf({ps[1], ps[Len(ps)]})
        /\ r[7] = part
BoxAccepts(rec) ==
    LET a == rec.a
        r == rec.r
    IN CASE rec.op \in {"bounds", "bounds3"} -> BoundsOK(a[1], a[2], a[3], r) /\ (rec.op = "bounds" => r[8] = Corners(BoxOf(Range(a[1]))))
         [] rec.op \in {"boxes", "boxes3"} ->
                LET b == <<a[1], a[2]>>
                    c == <<a[3], a[4]>>
                IN  /\ r[1] = BoxesMeet(b, c) /\ r[2] = BoxesMeet(b, c) /\ r[3] = BoxWithin(c, b) /\ r[4] = BoxWithin(c, b)
                    /\ r[5] = InBox(b, a[5]) /\ r[6] = InBox(b, a[5]) /\ r[7] = BoxesMeet(b, c)
         [] rec.op = "segbounds" -> LET m == BoxesMeet(BoxOf({a[1], a[2]}), BoxOf({a[3], a[4]})) IN r[1] = m /\ r[2] = m
         [] rec.op = "raybox" -> RayBoxOK(a[1], a[2], <<a[3], a[4]>>, r)
         [] rec.op = "segbox" -> SegBoxOK(a[1], a[2], <<a[3], a[4]>>, r)
         [] rec.op = "segbox3" -> r[1] = SegHits(a[1], a[2], <<a[3], a[4]>>)
         [] rec.op = "polybox" -> /\ r[1] = PolygonMeetsBox(a[1], <<a[2], a[3]>>)
                                  /\ r[2] = PolylineMeetsBox(a[1], <<a[2], a[3]>>)
=============================================================================
