------------------------------ MODULE Angles -------------------------------
(***************************************************************************)
(* Directions in the plane by exact integer arithmetic: order by counter-  *)
(* clockwise angle from a reference, sectors, cones clipping segments,     *)
(* rotations by rational directions, bisectors, and angles given as        *)
(* fractions of a turn.                                                    *)
(***************************************************************************)
EXTENDS Geo
\* where v lies on the turn that starts at ref: 0 along it, 1 left, 2 against it, 3 right
Pos(ref, v) == LET c == Cr(ref, v) IN IF c > 0 THEN 1 ELSE IF c < 0 THEN 3 ELSE IF Dt(ref, v) >= 0 THEN 0 ELSE 2
AngLess(ref, a, b) == \/ Pos(ref, a) < Pos(ref, b)
                      \/ Pos(ref, a) = Pos(ref, b) /\ Pos(ref, a) \in {1, 3} /\ Cr(a, b) > 0
SameDir(a, b) == Cr(a, b) = 0 /\ Dt(a, b) > 0
Opposite(a, b) == Cr(a, b) = 0 /\ Dt(a, b) < 0
\* c within the turn from a counter-clockwise to b
Between(a, b, c, incl) == IF SameDir(a, c) \/ SameDir(b, c) THEN incl
                          ELSE ~SameDir(a, b) /\ AngLess(a, c, b)
-----------------------------------------------------------------------------
(* the cone from lo counter-clockwise to hi, at most a half turn, closed *)
InCone(lo, hi, o, p) == Cr(lo, Sub(p, o)) >= 0 /\ Cr(Sub(p, o), hi) >= 0
\* parameters <<n, d>> at which a linear function with end values fa, fb is >= 0: <<from, to>> or << >>
Keep(fa, fb) == IF fa < 0 /\ fb < 0 THEN << >>
                ELSE <<IF fa < 0 THEN RNorm(-fa, fb - fa) ELSE <<0, 1>>, IF fb < 0 THEN RNorm(fa, fa - fb) ELSE <<1, 1>>>>
RMax(p, q) == IF RCmp(p, q) >= 0 THEN p ELSE q
RMin(p, q) == IF RCmp(p, q) <= 0 THEN p ELSE q
\* the piece of the segment a b inside the cone, as parameters
ConePiece(lo, hi, o, a, b) ==
    LET k == Keep(Cr(lo, Sub(a, o)), Cr(lo, Sub(b, o)))
        m == Keep(Cr(Sub(a, o), hi), Cr(Sub(b, o), hi))
    IN  IF k = << >> \/ m = << >> THEN << >>
        ELSE LET s == RMax(k[1], m[1])
                 e == RMin(k[2], m[2])
             IN  IF RCmp(s, e) > 0 THEN << >> ELSE <<s, e>>
PieceEnds(lo, hi, o, a, b) == {QAlong(a, b, t[1], t[2]) : t \in Range(ConePiece(lo, hi, o, a, b))}
-----------------------------------------------------------------------------
(* rotation taking direction u to direction w, |u| = cu and |w| = cw integers *)
RotQ(p, o, u, w, cu, cw) == LET c == Dt(u, w)
                                s == Cr(u, w)
                                v == Sub(p, o)
                                d == cu * cw
                            IN  QNorm(<<c * v[1] - s * v[2] + d * o[1], s * v[1] + c * v[2] + d * o[2], d>>)
-----------------------------------------------------------------------------
(* unit vectors in fixed point: components times 10000 *)
FxUnit(b) == Abs(b[1]) <= 10100 /\ Abs(b[2]) <= 10100 /\ Abs(b[1] * b[1] + b[2] * b[2] - 100000000) <= 60000
\* b points along the integer direction w
FxAlong(b, w) == Abs(b[1] * w[2] - b[2] * w[1]) <= 2 * (Abs(w[1]) + Abs(w[2])) /\ b[1] * w[1] + b[2] * w[2] > 0
FxIs(b, w, c) == FxUnit(b) /\ FxAlong(b, w)
\* half of the turn from u counter-clockwise to w (a whole turn when they agree); lengths cu and cw
Bisector(u, w, cu, cw) == LET s == <<u[1] * cw + w[1] * cu, u[2] * cw + w[2] * cu>>
                          IN  CASE Cr(u, w) > 0 -> s
                                [] Cr(u, w) < 0 -> <<-s[1], -s[2]>>
                                [] SameDir(u, w) -> <<-u[1], -u[2]>>
                                [] OTHER -> <<-u[2], u[1]>>
\* angle of n/d turns, replies as fraction of a turn in millionths
Million == 1000000
NormTurn(n, d, r) == LET e == r - ((n % d) * Million) \div d IN e \in {-2, -1, 0, 1, 2} \cup {Million - 2, Million - 1, Million, Million + 1, Million + 2} \cup {-Million - 2, -Million - 1, -Million, 1 - Million, 2 - Million}
AngAccepts(rec) ==
    CASE rec.op = "order" -> \* [ref, a, b] -> [a before b, b before a]
            rec.r = <<AngLess(rec.a[1], rec.a[2], rec.a[3]), AngLess(rec.a[1], rec.a[3], rec.a[2])>>
      [] rec.op = "sorted" -> \* directions given; the reply is a permutation in angular order
            /\ Len(rec.r) = Len(rec.a[2]) /\ Range(rec.r) = Range(rec.a[2])
            /\ \A k \in 1..(Len(rec.r) - 1) : ~AngLess(rec.a[1], rec.r[k + 1], rec.r[k])
      [] rec.op = "pseudo" -> \* exact value n/d in [0, 4)
            LET x == rec.a[1][1]
                y == rec.a[1][2]
                s == Abs(x) + Abs(y)
            IN  RIs(rec.r, IF y >= 0 THEN s - x ELSE 3 * s + x, s)
      [] rec.op = "between" -> rec.r = Between(rec.a[1], rec.a[2], rec.a[3], rec.a[4])
      [] rec.op = "cone" -> rec.r = (ConePiece(rec.a[1], rec.a[2], rec.a[3], rec.a[4], rec.a[5]) # << >>)
      [] rec.op = "conepiece" ->
            LET pc == ConePiece(rec.a[1], rec.a[2], rec.a[3], rec.a[4], rec.a[5])
            IN  /\ rec.r[1] = (pc # << >>)
                /\ rec.r[1] => {rec.r[2], rec.r[3]} = PieceEnds(rec.a[1], rec.a[2], rec.a[3], rec.a[4], rec.a[5])
      [] rec.op = "rotate" -> rec.r = RotQ(rec.a[1], rec.a[2], rec.a[3], rec.a[4], rec.a[5], rec.a[6])
      [] rec.op = "rotates" -> \* points, origin, u, w, cu, cw, translation
            /\ Len(rec.r) = Len(rec.a[1])
            /\ \A k \in 1..Len(rec.r) : LET q == RotQ(rec.a[1][k], rec.a[2], rec.a[3], rec.a[4], rec.a[5], rec.a[6])
                                            t == rec.a[7]
                                        IN  rec.r[k] = QNorm(<<q[1] + t[1] * q[3], q[2] + t[2] * q[3], q[3]>>)
      [] rec.op = "bisect" -> FxIs(rec.r, Bisector(rec.a[1], rec.a[2], rec.a[3], rec.a[4]), 0)
      [] rec.op = "antiparallel" -> rec.r = Opposite(rec.a[1], rec.a[2])
      [] rec.op = "lerp" -> LET u == rec.a[1]      \* direction of u + (n/d)(w - u)
                                w == rec.a[2]
                                n == rec.a[3]
                                d == rec.a[4]
                            IN  FxIs(rec.r, <<(d - n) * u[1] + n * w[1], (d - n) * u[2] + n * w[2]>>, 0)
      [] rec.op = "slerp" -> \* u, w of lengths cu, cw; half way, and the whole path keeps to the short side in order
            LET u == rec.a[1]
                w == rec.a[2]
                c == Sgn(Cr(u, w))
                h == <<u[1] * rec.a[4] + w[1] * rec.a[3], u[2] * rec.a[4] + w[2] * rec.a[3]>>
            IN  /\ \A k \in 1..Len(rec.r) : FxUnit(rec.r[k])
                /\ FxAlong(rec.r[1], u) /\ FxAlong(rec.r[Len(rec.r)], w)
                /\ FxAlong(rec.r[(Len(rec.r) + 1) \div 2], h)
                /\ \A k \in 1..(Len(rec.r) - 1) : c * ((rec.r[k][1] * rec.r[k + 1][2] - rec.r[k][2] * rec.r[k + 1][1]) \div 10000) >= (IF c = 0 THEN 0 ELSE 1)
      [] rec.op = "turn" -> \* n/d turns -> [in 0..2pi, millionths, in -pi..pi, millionths]
            /\ rec.r[1] /\ NormTurn(rec.a[1], rec.a[2], rec.r[2])
            /\ rec.r[3] /\ NormTurn(rec.a[1], rec.a[2], rec.r[4])
      [] rec.op = "direction" -> \* angle between two points / of a vector: its cosine and sine times the length are the vector
            /\ rec.r[1] = QOf(rec.a[1]) /\ rec.r[2] = QOf(rec.a[1])
            /\ rec.r[3]                   \* within (-pi, pi]
      [] OTHER -> FALSE
=============================================================================
