------------------------------- MODULE PredMC -------------------------------
(* Laws of the predicates over all small worlds: orders are strict weak orders, orientation is alternating, sectors
   and their complements share the directions out. *)
EXTENDS Predicates
CONSTANTS M, W
VARIABLES w
vars == <<w>>
Grid == (0..M) \X (0..M)
Init == w = <<>>
Next == Len(w) < W /\ \E p \in Grid : w' = Append(w, p)
Spec == Init /\ [][Next]_vars
Z == <<0, 0>>
Three == Len(w) >= 3 =>
    LET a == w[1]
        b == w[2]
        c == w[3]
        q == <<M \div 2, M \div 2>>
        u == Sub(a, q)
        v == Sub(b, q)
        x == Sub(c, q)
    IN  /\ Orient(a, b, c) = Orient(b, c, a) /\ Orient(a, b, c) = -Orient(b, a, c) /\ Orient(a, b, c) = -Orient(a, c, b)
        /\ (a # b /\ OnLine(a, b, c)) => Cardinality({k \in 1..3 : InSeg(w[k], w[(k % 3) + 1], w[((k + 1) % 3) + 1])}) = (IF c \in {a, b} THEN 0 ELSE 1)
        /\ InSeg(a, b, c) <=> (OnSeg(a, b, c) /\ c # a /\ c # b)
        /\ Cardinality({k \in 1..3 : CASE k = 1 -> LexLess(a, b) [] k = 2 -> LexLess(b, a) [] OTHER -> a = b}) = 1
        /\ LexLess(a, b) /\ LexLess(b, c) => LexLess(a, c)
        /\ RevLexLess(a, b) /\ RevLexLess(b, c) => RevLexLess(a, c)
        /\ \A d \in 1..2 : /\ Cardinality({k \in 1..3 : CASE k = 1 -> DimLess(a, b, d) [] k = 2 -> DimLess(b, a, d) [] OTHER -> a = b}) = 1
                          /\ DimLess(a, b, d) /\ DimLess(b, c, d) => DimLess(a, c, d)
        \* a total order arranges the points in one way only
        /\ Len(w) = 3 => LET ways == [1..3 -> {a, b, c}] IN /\ Cardinality({s \in ways : SortedBy(w, s, LexLess)}) = 1
                                                             /\ {s \in ways : SortedBy(w, s, DimLess2)} = {s \in ways : SortedBy(w, s, RevLexLess)}
        /\ Lex3(<<a[1], a[2], c[1]>>, <<b[1], b[2], c[2]>>) => ~Lex3(<<b[1], b[2], c[2]>>, <<a[1], a[2], c[1]>>)
        \* directions u and v cut the circle into two open sectors and two rays
        /\ (u # Z /\ v # Z /\ x # Z /\ ~SameDir(u, v)) =>
               Cardinality({k \in 1..4 : CASE k = 1 -> InSector(u, v, x) [] k = 2 -> InSector(v, u, x) [] k = 3 -> SameDir(u, x) [] OTHER -> SameDir(v, x)}) = 1
Four == Len(w) = 4 /\ w[1] # w[2] /\ w[3] # w[4] =>
    LET s == <<w[1], w[2]>>
        t == <<w[3], w[4]>>
    IN  /\ ~(SegLess(s, t) /\ SegLess(t, s))
        /\ IntervalLess(s, t) => SegLess(s, t) /\ ~IntervalLess(t, s)
        /\ (~SegLess(s, t) /\ ~SegLess(t, s)) <=> {w[1], w[2]} = {w[3], w[4]}
        \* the kinds of oriented crossing exclude each other, and reversing the crossed segment swaps the sides
        /\ \A k \in {0, 2, 3, 4, 5} : OrientedOK(w[1], w[2], w[3], w[4], k) => OrientedOK(w[1], w[2], w[4], w[3], IF k = 4 THEN 5 ELSE IF k = 5 THEN 4 ELSE k)
        /\ \E k \in {0, 2, 3, 4, 5} : OrientedOK(w[1], w[2], w[3], w[4], k)
        \* the circle of three points: antisymmetric in the points, chords are inside, points beyond a chord on its line are outside
        /\ LET a == w[1]
               b == w[2]
               c == w[3]
               p == w[4]
           IN  /\ InCircle(a, b, c, p) = InCircle(b, c, a, p) /\ InCircle(a, b, c, p) = -InCircle(b, a, c, p) /\ InCircle(a, b, c, p) = -InCircle(a, b, p, c)
               /\ p \in {a, b, c} => InCircle(a, b, c, p) = 0
               /\ Orient(a, b, c) > 0 => (OnLine(a, b, p) => Sgn(InCircle(a, b, c, p)) = (IF p \in {a, b} THEN 0 ELSE IF InSeg(a, b, p) THEN 1 ELSE -1))
=============================================================================
