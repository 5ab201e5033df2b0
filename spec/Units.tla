------------------------------- MODULE Units -------------------------------
(***************************************************************************)
(* C35: geometry of quantities with units.  A world holds two points, two  *)
(* displacements (lengths), two velocities, a length and a time.  The      *)
(* specification knows their amounts and their dimensions <<length, time>>;*)
(* which units they are written in does not matter.  Operations            *)
(* <<code, to, a, b, c>>:                                                  *)
(*  1  p = p[a] + v[b]    2  p = p[a] - v[b]     3  v = p[a] - p[b]        *)
(*  4  v = v[a] + v[b]    5  v = v[a] - v[b]     6  v = c v[a]             *)
(*  7  v = v[a] / c       8  v = u[a] t          9  u = v[a] / t           *)
(* 10  p = p[a] + u[b] t 11  u = u[a] + u[b]    12  u = c u[a]             *)
(* 13  v = - v[a]        14  l = v[a] . e[b]    15  v = l e[b]             *)
(* 16  t = c             17  l = c              18  coordinate a of p is c *)
(* 19  t = v[a].v[a] / (v[a].u[b])              20  l = |v[a]|             *)
(* 21  p = half way between p[a] and p[b]                                  *)
(* 22  v = v[a] + (its projection on v[b])      23  p = p[a], by way of    *)
(*                                                  another unit           *)
(* 24  p = p[a] + c (p[b] - p[a]) + t u[b]                                 *)
(* e[1..4] are directions: the axes, (3, 4)/5 and (-4, 3)/5.               *)
(***************************************************************************)
EXTENDS SeqDist
Pol == INSTANCE Polygons

\* dimensions: exponents of length and time
LEN == <<1, 0>>
TIM == <<0, 1>>
NUM == <<0, 0>>
DMul(a, b) == <<a[1] + b[1], a[2] + b[2]>>
DDiv(a, b) == <<a[1] - b[1], a[2] - b[2]>>
SPD == DDiv(LEN, TIM)
ARE == DMul(LEN, LEN)
\* the dimension an operation computes, and of the register that takes it
OpDim(c) == CASE c \in {1, 2, 3, 4, 5, 13, 17, 18, 20, 21, 23} -> LEN
              [] c \in {6, 7} -> DMul(NUM, LEN)
              [] c = 8 -> DMul(SPD, TIM)
              [] c = 9 -> DDiv(LEN, TIM)
              [] c = 10 -> DMul(SPD, TIM)
              [] c \in {11, 12} -> DMul(NUM, SPD)
              [] c \in {14, 15} -> DMul(LEN, NUM)
              [] c = 16 -> TIM
              [] c = 19 -> DDiv(ARE, DMul(LEN, SPD))
              [] c = 22 -> DMul(DDiv(ARE, ARE), LEN)
              [] c = 24 -> DMul(TIM, SPD)
ToP == {1, 2, 10, 18, 21, 23, 24}
ToV == {3, 4, 5, 6, 7, 8, 13, 15, 22}
ToU == {9, 11, 12}
ToL == {14, 17, 20}
ToT == {16, 19}
RegDim(c) == IF c \in ToU THEN SPD ELSE IF c \in ToT THEN TIM ELSE LEN

UStart == [p |-> <<<<1, 2>>, <<-2, 4>>>>, v |-> <<<<3, 4>>, <<-4, 3>>>>, u |-> <<<<1, 0>>, <<-2, 1>>>>, l |-> 5, t |-> 2]
ScaledBy(n, m, s) == \* lengths count n times as many, times m times as many; n is a multiple of m
    LET Up(k, x) == [j \in 1..2 |-> <<k * x[j][1], k * x[j][2]>>]
    IN [p |-> Up(n, s.p), v |-> Up(n, s.v), u |-> Up(n \div m, s.u), l |-> n * s.l, t |-> m * s.t]
At2(n, v) == <<n * v[1], n * v[2]>>
Plus(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Dir5(k) == IF k = 1 THEN <<5, 0>> ELSE IF k = 2 THEN <<0, 5>> ELSE IF k = 3 THEN <<3, 4>> ELSE <<-4, 3>>   \* five times the direction
Part(n, v) == <<v[1] \div n, v[2] \div n>>
Splits(n, v) == IF n = 0 THEN FALSE ELSE v[1] % Abs(n) = 0 /\ v[2] % Abs(n) = 0
Root(n) == CHOOSE k \in 0..2000 : k * k = n
IsSquare(n) == n <= 4000000 /\ \E k \in 0..2000 : k * k = n
DivBy(n, v) == IF n < 0 THEN Part(-n, At2(-1, v)) ELSE Part(n, v)

\* an operation is used only where its result is a whole count
UWhole(s, op) ==
    LET a == op[3]
        b == op[4]
        c == op[5]
    IN CASE op[1] = 7 -> Splits(c, s.v[a])
         [] op[1] = 9 -> Splits(s.t, s.v[a])
         [] op[1] = 14 -> Dt(s.v[a], Dir5(b)) % 5 = 0
         [] op[1] = 15 -> Splits(5, At2(s.l, Dir5(b)))
         [] op[1] = 16 -> c > 0
         [] op[1] = 19 -> LET m == Dt(s.v[a], s.u[b]) IN IF m <= 0 THEN FALSE ELSE Dt(s.v[a], s.v[a]) % m = 0 /\ Dt(s.v[a], s.v[a]) > 0
         [] op[1] = 20 -> IsSquare(Dt(s.v[a], s.v[a]))
         [] op[1] = 21 -> Splits(2, Plus(s.p[a], s.p[b]))
         [] op[1] = 22 -> Splits(Dt(s.v[b], s.v[b]), At2(Dt(s.v[a], s.v[b]), s.v[b]))
         [] OTHER -> TRUE
UStep(s, op) ==
    LET to == op[2]
        a == op[3]
        b == op[4]
        c == op[5]
        k == op[1]
        P(q) == [s EXCEPT !.p[to] = q]
        X(q) == [s EXCEPT !.v[to] = q]
        Z(q) == [s EXCEPT !.u[to] = q]
    IN CASE k = 1 -> P(Plus(s.p[a], s.v[b]))
         [] k = 2 -> P(Sub(s.p[a], s.v[b]))
         [] k = 3 -> X(Sub(s.p[a], s.p[b]))
         [] k = 4 -> X(Plus(s.v[a], s.v[b]))
         [] k = 5 -> X(Sub(s.v[a], s.v[b]))
         [] k = 6 -> X(At2(c, s.v[a]))
         [] k = 7 -> X(DivBy(c, s.v[a]))
         [] k = 8 -> X(At2(s.t, s.u[a]))
         [] k = 9 -> Z(Part(s.t, s.v[a]))
         [] k = 10 -> P(Plus(s.p[a], At2(s.t, s.u[b])))
         [] k = 11 -> Z(Plus(s.u[a], s.u[b]))
         [] k = 12 -> Z(At2(c, s.u[a]))
         [] k = 13 -> X(At2(-1, s.v[a]))
         [] k = 14 -> [s EXCEPT !.l = Dt(s.v[a], Dir5(b)) \div 5]
         [] k = 15 -> X(Part(5, At2(s.l, Dir5(b))))
         [] k = 16 -> [s EXCEPT !.t = c]
         [] k = 17 -> [s EXCEPT !.l = c]
         [] k = 18 -> P([s.p[to] EXCEPT ![a] = c])
         [] k = 19 -> [s EXCEPT !.t = Dt(s.v[a], s.v[a]) \div Dt(s.v[a], s.u[b])]
         [] k = 20 -> [s EXCEPT !.l = Root(Dt(s.v[a], s.v[a]))]
         [] k = 21 -> P(Part(2, Plus(s.p[a], s.p[b])))
         [] k = 22 -> X(Plus(s.v[a], Part(Dt(s.v[b], s.v[b]), At2(Dt(s.v[a], s.v[b]), s.v[b]))))
         [] k = 23 -> P(s.p[a])
         [] k = 24 -> P(Plus(Plus(s.p[a], At2(c, Sub(s.p[b], s.p[a]))), At2(s.t, s.u[b])))
Size(s) == SetMax({Abs(s.p[k][j]) : k \in 1..2, j \in 1..2} \cup {Abs(s.v[k][j]) : k \in 1..2, j \in 1..2} \cup {Abs(s.u[k][j]) : k \in 1..2, j \in 1..2} \cup {Abs(s.l), s.t})
UAllowed(s, op, most) == IF UWhole(s, op) THEN Size(UStep(s, op)) <= most ELSE FALSE

\* what is read back: the amounts and the dimensions
Has(d, x, q) == q[1] = d[1] /\ q[2] = d[2] /\ q[3] = x
USeen(s, r) ==
    /\ Has(LEN, s.p[1], r[1]) /\ Has(LEN, s.p[2], r[2]) /\ Has(LEN, s.v[1], r[3]) /\ Has(LEN, s.v[2], r[4])
    /\ Has(SPD, s.u[1], r[5]) /\ Has(SPD, s.u[2], r[6]) /\ Has(LEN, s.l, r[7]) /\ Has(TIM, s.t, r[8])
    /\ Has(ARE, Dt(s.v[1], s.v[2]), r[9]) /\ Has(ARE, Cr(s.v[1], s.v[2]), r[10])
    /\ Has(DMul(SPD, LEN), Dt(s.u[1], s.v[1]), r[11]) /\ Has(DMul(SPD, SPD), Dt(s.u[2], s.u[2]), r[12])
    /\ LET d == Sub(s.p[1], s.p[2]) IN Has(ARE, Dt(d, d), r[13]) /\ Has(ARE, Dt(d, d), r[14])
    /\ Has(DMul(LEN, TIM), s.l * s.t, r[15]) /\ Has(ARE, s.l * s.l, r[16]) /\ Has(ARE, Dt(s.v[1], s.v[1]), r[17])
    /\ r[18] = (s.p[1] = s.p[2]) /\ r[19] = LexLess(s.p[1], s.p[2])
    /\ r[20] = Sgn(Cr(s.v[1], s.v[2])) /\ r[21] = Sgn(Cr(s.u[1], s.v[2]))
RECURSIVE URun(_, _, _, _)
URun(s, ops, r, k) == IF k > Len(ops) THEN TRUE
                      ELSE LET t == UStep(s, ops[k]) IN IF USeen(t, r[k]) THEN URun(t, ops, r, k + 1) ELSE FALSE
UHistoryOK(ops, n, r) == Len(r) = Len(ops) /\ URun(ScaledBy(n, 1, UStart), ops, r, 1)

\* queries of the plane: decided as for plain numbers
TellOK(a, b, c, r) == /\ r[1] = Orient(a, b, c) /\ r[2] = LexLess(a, b) /\ r[3] = (a = c)
                      /\ a # b => r[4] = (r[1] = 0) /\ r[5] = OnSeg(a, b, c) /\ r[6] = InSeg(a, b, c)
RingOK(v, a, d, r) == /\ r[1] = ARE /\ r[2] = Pol!Area2(v) /\ r[3] = ARE /\ r[4] = Abs(Pol!Area2(v)) /\ r[5] = Pol!Centroid(v)
                      /\ r[6] = Pol!Bounds(v, 1, Len(v)) /\ r[7] = r[6]
                      /\ Pol!InOK(v, a, r[8]) /\ Pol!InOK(v, d, r[9])
\* other queries: the same numbers come out whatever unit they are written in, each with its dimension
SameOK(plain, unit, dims) ==
    /\ Len(plain) = Len(unit) /\ Len(dims) = Len(unit)
    /\ \A k \in 1..Len(unit) : /\ unit[k][1] = dims[k][1] /\ unit[k][2] = dims[k][2]
                               /\ plain[k][1] = 0 /\ plain[k][2] = 0
                               /\ Abs(unit[k][3] - plain[k][3]) <= 1
DimsOf(q, n) ==
    LET From(first, d) == [k \in 1..n |-> IF k <= Len(first) THEN first[k] ELSE d]
    IN CASE q = "tell"  -> From(<<>>, NUM)
         [] q = "meet"  -> From(<<NUM, TIM>>, LEN)      \* whether, when and where
         [] q = "found" -> From(<<NUM>>, LEN)           \* how many, where
         [] q = "place" -> From(<<>>, LEN)
         [] q = "turn"  -> From(<<LEN, LEN, NUM>>, LEN) \* a turned point, and a turned ring
         [] q = "area"  -> From(<<>>, ARE)
UnitsAccepts(rec) ==
    LET a == rec.a
        r == rec.r
    IN CASE rec.op = "history" -> UHistoryOK(a[1], a[2], r)
         [] rec.op = "tell" -> TellOK(a[1], a[2], a[3], r)
         [] rec.op = "ring" -> RingOK(a[1], a[2], a[3], r)
         [] rec.op = "segs" -> r[1] = SSD2(a[1], a[2], a[3], a[4]) /\ r[2] = r[1]
         [] rec.op = "ssi" -> SegAccepts(rec)
         [] rec.op = "ray" -> LineAccepts(rec)
         [] rec.op \in {"ptseg", "ptline", "ptbox", "boxbox", "ptobb"} -> DistAccepts(rec)
         [] rec.op = "ptseq" -> SeqAccepts(rec)
         [] rec.op = "same" -> SameOK(r[1], r[2], DimsOf(a[1], Len(r[1]))) /\ SameOK(r[1], r[3], DimsOf(a[1], Len(r[1])))
=============================================================================
