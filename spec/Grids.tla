-------------------------------- MODULE Grids --------------------------------
(***************************************************************************)
(* C09: grid geometry (grid_traits), dense and hashed cell stores.         *)
(* C10: cells visited by walking a segment over a grid.                    *)
(*                                                                         *)
(* A grid is g = <<xmin, xmax, ymin, ymax, w>> (integers, w > 0).  Cells   *)
(* are <<i, j>>, 0-based; cell <<i, j>> spans [xmin + i w, xmin + (i+1) w).*)
(***************************************************************************)
EXTENDS Geo

XMin(g) == g[1]
XMax(g) == g[2]
YMin(g) == g[3]
YMax(g) == g[4]
CW(g)   == g[5]
Pow2(w) == w \in {1, 2, 4, 8, 16, 32, 64}
\* index of an offset d >= 0 from the origin.  1/w is not exact unless w is a power of two: then an offset lying
\* exactly on a cell limit may be attributed to the cell before.
IdxSet(g, d) == LET q == d \div CW(g)
                IN  IF ~Pow2(CW(g)) /\ d % CW(g) = 0 /\ q > 0 THEN {q - 1, q} ELSE {q}
SizeSet(g, e) == {n + 1 : n \in IdxSet(g, e)}
Inside(g, p) == XMin(g) <= p[1] /\ p[1] <= XMax(g) /\ YMin(g) <= p[2] /\ p[2] <= YMax(g)
CellCorner(g, i, j) == <<XMin(g) + i * CW(g), YMin(g) + j * CW(g)>>
CellPoly(g, i, j) == <<CellCorner(g, i, j), CellCorner(g, i + 1, j), CellCorner(g, i + 1, j + 1), CellCorner(g, i, j + 1)>>

\* r = << <<W, H>>, per point <<contained, i, j, scaled-x, scaled-y>>, per cell <<centroid * 2, polygon, box, corners, index of centroid>> >>
TraitsOK(g, ps, cells, r) ==
    /\ r[1][1] \in SizeSet(g, XMax(g) - XMin(g)) /\ r[1][2] \in SizeSet(g, YMax(g) - YMin(g))
    /\ \A k \in 1..Len(ps) :
        LET p == ps[k]
            q == r[2][k]
        IN  /\ q[1] = Inside(g, p)
            /\ q[1] => /\ q[2] \in IdxSet(g, p[1] - XMin(g)) /\ q[3] \in IdxSet(g, p[2] - YMin(g))
                       /\ q[2] < r[1][1] /\ q[3] < r[1][2]
                       /\ q[4] = RNorm(p[1] - XMin(g), CW(g)) /\ q[5] = RNorm(p[2] - YMin(g), CW(g))
    /\ \A k \in 1..Len(cells) :
        LET c == cells[k]
            q == r[3][k]
            lo == CellCorner(g, c[1], c[2])
        IN  /\ q[1] = <<2 * lo[1] + CW(g), 2 * lo[2] + CW(g)>>
            /\ q[2] = CellPoly(g, c[1], c[2])
            /\ q[3] = <<lo, CellCorner(g, c[1] + 1, c[2] + 1)>>
            /\ q[4] = CellPoly(g, c[1], c[2])
            /\ q[5] = c
    /\ r[4] = <<<<XMin(g), YMin(g)>>, <<XMin(g), XMax(g), YMin(g), YMax(g), CW(g)>>>>
-----------------------------------------------------------------------------
(***************************************************************************)
(* The hashed store as a state machine.  The state is a partial function   *)
(* cell -> value, kept as a set of <<cell, value>> pairs.  Step(s, op)     *)
(* yields [st, rep]; op = <<code, i, j, v>>.                               *)
(***************************************************************************)
H_GET == 1      \* get_cell(i, j) and store v in it: replies with the value it held (0 for a fresh cell)
H_FIND == 2     \* find_cell: the value, or -1
H_ERASE == 3
H_CLEAR == 4
H_MOVE == 5     \* move construct and go on with the new store
H_ASSIGN == 6   \* move assign to a store that had contents
HVal(s, c) == LET m == {e \in s : e[1] = c} IN IF m = {} THEN -1 ELSE (CHOOSE e \in m : TRUE)[2]
HWithout(s, c) == {e \in s : e[1] # c}
HStep(s, op) ==
    LET c == <<op[2], op[3]>>
    IN CASE op[1] = H_GET -> [st |-> HWithout(s, c) \cup {<<c, op[4]>>}, rep |-> Max2(HVal(s, c), 0)]
         [] op[1] = H_FIND -> [st |-> s, rep |-> HVal(s, c)]
         [] op[1] = H_ERASE -> [st |-> HWithout(s, c), rep |-> 0]
         [] op[1] = H_CLEAR -> [st |-> {}, rep |-> 0]
         [] op[1] \in {H_MOVE, H_ASSIGN} -> [st |-> s, rep |-> 0]
RECURSIVE HRun(_, _, _, _)
HRun(s, ops, r, k) == IF k > Len(ops) THEN {s}
                      ELSE LET n == HStep(s, ops[k]) IN IF r[k] # n.rep THEN {} ELSE HRun(n.st, ops, r, k + 1)
\* ops are replayed; afterwards every cell of the grid was looked up
HashOK(dims, ops, r) ==
    LET fin == HRun({}, ops, r[1], 1)
    IN  /\ fin # {}
        /\ \A s \in fin : r[2] = [k \in 1..(dims[1] * dims[2]) |-> HVal(s, <<(k - 1) \div dims[2], (k - 1) % dims[2]>>)]
\* dense store: every cell starts at 0, keeps what was last written
DStep(s, op) == LET c == <<op[2], op[3]>>
                IN  [st |-> HWithout(s, c) \cup {<<c, op[4]>>}, rep |-> Max2(HVal(s, c), 0)]
RECURSIVE DRun(_, _, _, _)
DRun(s, ops, r, k) == IF k > Len(ops) THEN {s}
                      ELSE LET n == DStep(s, ops[k]) IN IF r[k] # n.rep THEN {} ELSE DRun(n.st, ops, r, k + 1)
DenseOK(dims, ops, r) ==
    LET fin == DRun({}, ops, r[1], 1)
    IN  /\ fin # {}
        /\ \A s \in fin : r[2] = [k \in 1..(dims[1] * dims[2]) |-> Max2(HVal(s, <<(k - 1) \div dims[2], (k - 1) % dims[2]>>), 0)]
\* grids far too large to be looked through: the named cells were looked up at the end
ProbeHashOK(ops, probes, r) ==
    LET fin == HRun({}, ops, r[1], 1)
    IN  /\ fin # {}
        /\ \A s \in fin : r[2] = [k \in 1..Len(probes) |-> HVal(s, probes[k])]
ProbeDenseOK(ops, probes, r) ==
    LET fin == DRun({}, ops, r[1], 1)
    IN  /\ fin # {}
        /\ \A s \in fin : r[2] = [k \in 1..Len(probes) |-> Max2(HVal(s, probes[k]), 0)]
-----------------------------------------------------------------------------
(***************************************************************************)
(* Walks.  Coordinates of the segment are integers; the grid is integer.   *)
(***************************************************************************)
BoxPts(l, h) == {<<l[1], l[2]>>, <<h[1], l[2]>>, <<h[1], h[2]>>, <<l[1], h[2]>>}
\* closed segment meets the closed box [l, h] / its interior (separating axes)
SegBox(a, b, l, h) ==
    /\ Max2(a[1], b[1]) >= l[1] /\ Min2(a[1], b[1]) <= h[1] /\ Max2(a[2], b[2]) >= l[2] /\ Min2(a[2], b[2]) <= h[2]
    /\ \/ a = b
       \/ LET s == {Orient(a, b, p) : p \in BoxPts(l, h)} IN 0 \in s \/ (1 \in s /\ -1 \in s)
SegBoxIn(a, b, l, h) ==
    /\ Max2(a[1], b[1]) > l[1] /\ Min2(a[1], b[1]) < h[1] /\ Max2(a[2], b[2]) > l[2] /\ Min2(a[2], b[2]) < h[2]
    /\ \/ a = b
       \/ LET s == {Orient(a, b, p) : p \in BoxPts(l, h)} IN 1 \in s /\ -1 \in s
CellMeets(g, a, b, c)   == SegBox(a, b, CellCorner(g, c[1], c[2]), CellCorner(g, c[1] + 1, c[2] + 1))
\* the part of the cell that belongs to the grid
CellCrossed(g, a, b, c) == LET l == CellCorner(g, c[1], c[2])
                               h == CellCorner(g, c[1] + 1, c[2] + 1)
                           IN SegBoxIn(a, b, l, <<Min2(h[1], XMax(g)), Min2(h[2], YMax(g))>>)
GW(g) == (XMax(g) - XMin(g)) \div CW(g) + 1
GH(g) == (YMax(g) - YMin(g)) \div CW(g) + 1
Cells(g) == {<<i, j>> : i \in 0..(GW(g) - 1), j \in 0..(GH(g) - 1)}
CellOf(g, p) == <<(p[1] - XMin(g)) \div CW(g), (p[2] - YMin(g)) \div CW(g)>>
MeetsGrid(g, a, b) == SegBox(a, b, <<XMin(g), YMin(g)>>, <<XMax(g), YMax(g)>>)
CrossesGrid(g, a, b) == SegBoxIn(a, b, <<XMin(g), YMin(g)>>, <<XMax(g), YMax(g)>>)
\* column by column, the cells whose row range meets that of the segment there: a superset of the crossed cells that is
\* cheap to list however large the grid is (WalkMC checks that it is one)
NearCells(g, a, b) ==
    LET p == IF a[1] <= b[1] THEN a ELSE b
        q == IF a[1] <= b[1] THEN b ELSE a
        dx == q[1] - p[1]
        dy == q[2] - p[2]
        lowAt(x) == p[2] + (((x - p[1]) * dy) \div dx)
        highAt(x) == p[2] - (((p[1] - x) * dy) \div dx)
        \* floor and ceiling of the height of the segment over [x, y]
        lo(x, y) == IF dx = 0 THEN Min2(p[2], q[2]) ELSE Min2(lowAt(x), lowAt(y))
        hi(x, y) == IF dx = 0 THEN Max2(p[2], q[2]) ELSE Max2(highAt(x), highAt(y)) + 1
        row(y) == (y - YMin(g)) \div CW(g)
    IN  UNION {LET xl == Max2(p[1], XMin(g) + i * CW(g))
                   xr == Min2(q[1], XMin(g) + (i + 1) * CW(g))
               IN {<<i, j>> : j \in Max2(0, row(lo(xl, xr)))..Min2(GH(g) - 1, row(hi(xl, xr)))}
               : i \in Max2(0, (p[1] - XMin(g)) \div CW(g))..Min2(GW(g) - 1, (q[1] - XMin(g)) \div CW(g))}
Step4(c, d) == Abs(c[1] - d[1]) + Abs(c[2] - d[2]) = 1
Step8(c, d) == c # d /\ Abs(c[1] - d[1]) <= 1 /\ Abs(c[2] - d[2]) <= 1
NoRepeat(v) == Cardinality(Range(v)) = Len(v)
\* an unbroken walk over exactly the touched cells.  Cells touched only in a corner or along a side may be missed.
WalkOK(g, a, b, v, neighbour(_, _)) ==
    IF ~MeetsGrid(g, a, b) THEN v = << >>
    ELSE /\ \A c \in Range(v) : c[1] \in 0..(GW(g) - 1) /\ c[2] \in 0..(GH(g) - 1) /\ CellMeets(g, a, b, c)
         /\ {c \in NearCells(g, a, b) : CellCrossed(g, a, b, c)} \subseteq Range(v)
         /\ NoRepeat(v)
         /\ \A k \in 1..(Len(v) - 1) : neighbour(v[k], v[k + 1])
         /\ (Inside(g, a) /\ Inside(g, b)) => v # << >>
         /\ Inside(g, a) /\ Inside(g, b) => v[1] = CellOf(g, a) /\ v[Len(v)] = CellOf(g, b)
         /\ (Inside(g, a) /\ v # << >>) => v[1] = CellOf(g, a)
         /\ (Inside(g, b) /\ v # << >>) => v[Len(v)] = CellOf(g, b)
VoxelOK(g, a, b, v) == WalkOK(g, a, b, v, Step4)
\* a visitor that stops after n cells sees the first n cells
StopOK(all, n, v) == v = SubSeq(all, 1, Min2(Max2(n, 1), Len(all)))
LexOrder(a, b) == IF LexLess(b, a) THEN <<b, a>> ELSE <<a, b>>
OrientWalkOK(g, a, b, v) == LET e == LexOrder(a, b) IN WalkOK(g, e[1], e[2], v, Step8)
\* digital line between the two cells: as long as the larger extent, never further than half a cell from the ideal line
BresOK(g, a, b, v) ==
    LET s == CellOf(g, a)
        t == CellOf(g, b)
        dx == t[1] - s[1]
        dy == t[2] - s[2]
        n == Max2(Abs(dx), Abs(dy))
    IN  /\ Len(v) = n + 1 /\ v[1] = s /\ v[Len(v)] = t
        /\ \A k \in 1..n : Step8(v[k], v[k + 1])
        /\ \A k \in 1..(n + 1) : 2 * Abs(dx * (v[k][2] - s[2]) - dy * (v[k][1] - s[1])) <= n
-----------------------------------------------------------------------------
GridAccepts(rec) == LET a == rec.a
                        r == rec.r
                    IN CASE rec.op = "traits" -> TraitsOK(a[1], a[2], a[3], r)
                         [] rec.op = "hash" -> HashOK(a[1], a[2], r)
                         [] rec.op = "dense" -> DenseOK(a[1], a[2], r)
                         [] rec.op = "bighash" -> ProbeHashOK(a[2], a[3], r)
                         [] rec.op = "bigdense" -> ProbeDenseOK(a[2], a[3], r)
WalkAccepts(rec) == LET a == rec.a
                        r == rec.r
                    IN CASE rec.op = "voxel" -> VoxelOK(a[1], a[2], a[3], r[1]) /\ StopOK(r[1], a[4], r[2])
                         [] rec.op = "orient" -> OrientWalkOK(a[1], a[2], a[3], r)
                         [] rec.op = "bres" -> BresOK(a[1], a[2], a[3], r)
=============================================================================
