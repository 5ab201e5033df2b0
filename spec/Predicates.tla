----------------------------- MODULE Predicates -----------------------------
(***************************************************************************)
(* C01: orientation, betweenness and lexicographic predicates.             *)
(***************************************************************************)
EXTENDS Geo

RevLexLess(a, b) == a[2] < b[2] \/ (a[2] = b[2] /\ a[1] < b[1])
LowOf(s) == IF LexLess(s[1], s[2]) THEN s[1] ELSE s[2]
UpOf(s)  == IF LexLess(s[1], s[2]) THEN s[2] ELSE s[1]
SegLess(s, t) == LexLess(LowOf(s), LowOf(t)) \/ (LowOf(s) = LowOf(t) /\ LexLess(UpOf(s), UpOf(t)))
IntervalLess(s, t) == LexLess(UpOf(s), LowOf(t))
\* lexicographic order on triples
Lex3(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3])))
RevLex3(a, b) == Lex3(<<a[3], a[2], a[1]>>, <<b[3], b[2], b[1]>>)
\* ordering by coordinate d, ties by the whole point
DimLess(a, b, d) == a[d] < b[d] \/ (a[d] = b[d] /\ LexLess(a, b))
DimLess3(a, b, d) == a[d] < b[d] \/ (a[d] = b[d] /\ Lex3(a, b))
\* s is the points of p, each as often as in p, none before a smaller one
Times(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SortedBy(p, s, L(_, _)) == /\ Len(s) = Len(p) /\ \A i \in 1..Len(p) : Times(p, p[i]) = Times(s, p[i])
                           /\ \A i \in 1..(Len(s) - 1) : ~L(s[i + 1], s[i])
DimLess1(a, b) == DimLess(a, b, 1)
DimLess2(a, b) == DimLess(a, b, 2)

\* oriented crossing of p1p2 over p3p4 (4: right to left, 5: left to right, 3: end point, 2: overlap, 0: none)
OrientedOK(p1, p2, p3, p4, t) ==
    IF ~SegsMeet(p1, p2, p3, p4) THEN t = 0
    ELSE IF ~OnLine(p3, p4, p1) /\ ~OnLine(p3, p4, p2) THEN t = (IF Orient(p3, p4, p1) > 0 THEN 5 ELSE 4)
    ELSE IF SegsOverlap(p1, p2, p3, p4)
         THEN t = 2 \/ (t = 3 /\ {p1, p2} \cap {p3, p4} # {})
    ELSE IF {p1, p2} \cap {p3, p4} # {} THEN t = 3
    ELSE t \in {0, 3}            \* p1 or p2 touches the inside of p3p4: not a transition from one side to the other

\* c strictly inside / on the border of the counter-clockwise sector from a to b
SameDir(u, v) == Cr(u, v) = 0 /\ Dt(u, v) > 0
InSector(a, b, c) == IF Cr(a, b) > 0 THEN Cr(a, c) > 0 /\ Cr(c, b) > 0
                     ELSE IF Cr(a, b) < 0 THEN ~(Cr(b, c) >= 0 /\ Cr(c, a) >= 0)
                     ELSE IF Dt(a, b) < 0 THEN Cr(a, c) > 0
                     ELSE FALSE                                    \* empty sector

TriOK(a, b, c, r) ==
    /\ r[1] = Orient(a, b, c) /\ r[2] = Orient(a, b, c)
    /\ r[3] = (Orient(a, b, c) = 0)
    /\ a # b => /\ r[4] = OnSeg(a, b, c) /\ r[5] = InSeg(a, b, c)
                /\ r[6] = OnSeg(a, b, c) /\ r[7] = InSeg(a, b, c)
    /\ r[8] = (a[1] = b[1]) /\ r[9] = (a[2] = b[2]) /\ r[10] = (a[1] = b[1]) /\ r[11] = (a[2] = b[2])
    /\ r[12] = LexLess(a, b) /\ r[13] = LexLess(b, a) /\ r[14] = LexLess(a, b)
    /\ r[15] = RevLexLess(a, b) /\ r[16] = (a = b)
    /\ r[17] = LexLess(a, b)                                      \* ordering by x, ties by the whole point
    /\ r[18] = (a[2] < b[2] \/ (a[2] = b[2] /\ LexLess(a, b)))     \* ordering by y, ties by the whole point
    /\ r[19] = Lex3(<<a[1], a[2], c[1]>>, <<b[1], b[2], c[2]>>)
    /\ (a[1] # b[1]) => r[20] = RNorm(b[2] - a[2], b[1] - a[1])
                     /\ r[21] = RNorm(a[2] * (b[1] - a[1]) + (c[1] - a[1]) * (b[2] - a[2]), b[1] - a[1])
    /\ (a[1] # b[1] /\ a[2] # b[2]) => r[22] = RNorm(a[1] * (b[2] - a[2]) + (c[2] - a[2]) * (b[1] - a[1]), b[2] - a[2])
QuadOK(a, b, c, d, r) ==
    /\ OrientedOK(a, b, c, d, r[1])
    /\ r[2] = SegLess(<<a, b>>, <<c, d>>) /\ r[3] = SegLess(<<c, d>>, <<a, b>>)
    /\ r[4] = IntervalLess(<<a, b>>, <<c, d>>)
\* p against the circle through a, b, c (counter-clockwise): 1 inside, 0 on it, -1 outside
InCircle(a, b, c, p) ==
    LET u == Sub(a, p)
        v == Sub(b, p)
        w == Sub(c, p)
    IN  Dt(u, u) * Cr(v, w) + Dt(v, v) * Cr(w, u) + Dt(w, w) * Cr(u, v)
Tri3OK(a, b, r) == /\ r[1] = Lex3(a, b) /\ r[2] = Lex3(b, a) /\ r[3] = RevLex3(a, b) /\ r[4] = (a = b)
                    /\ \A d \in 1..3 : r[4 + d] = DimLess3(a, b, d)

PredAccepts(rec) == LET a == rec.a
                        r == rec.r
                    IN CASE rec.op = "tri" -> TriOK(a[1], a[2], a[3], r)
                         [] rec.op = "quad" -> QuadOK(a[1], a[2], a[3], a[4], r)
                         [] rec.op = "thin" -> /\ r[1] = Orient(a[1], a[2], a[3]) /\ r[2] = r[1] /\ r[3] = (r[1] = 0)
                                               /\ a[1] # a[2] => r[4] = OnSeg(a[1], a[2], a[3]) /\ r[5] = InSeg(a[1], a[2], a[3])
                                               /\ (a[1] # a[2] /\ a[3] # a[4]) => OrientedOK(a[1], a[2], a[3], a[4], r[6]) /\ OrientedOK(a[3], a[4], a[1], a[2], r[7])
                         [] rec.op = "circum" -> r[1] = Sgn(InCircle(a[1], a[2], a[3], a[4]))
                         [] rec.op = "sorted" -> /\ SortedBy(a[1], r[1], LexLess) /\ SortedBy(a[1], r[2], RevLexLess)
                                                 /\ SortedBy(a[1], r[3], DimLess1) /\ SortedBy(a[1], r[4], DimLess2)
                         [] rec.op = "space" -> Tri3OK(a[1], a[2], r)
=============================================================================
