------------------------------- MODULE Floods -------------------------------
(***************************************************************************)
(* C11: flood fill over a grid (colouring helper) and polygon rasterising. *)
(* State of the helper: colour of every cell (0 fresh, -1 barrier), cells  *)
(* already reported to a visitor, number of fills so far.                  *)
(***************************************************************************)
EXTENDS Grids

WALL == -1
FCells(W, H) == {<<i, j>> : i \in 0..(W - 1), j \in 0..(H - 1)}
FInit(W, H) == [col |-> [c \in FCells(W, H) |-> 0], vis |-> {}, n |-> 0]
Near(c, S) == {d \in S : Step4(c, d)}
\* cells of S connected to the set F (contained in S)
Around(F) == UNION {{<<c[1] + 1, c[2]>>, <<c[1] - 1, c[2]>>, <<c[1], c[2] + 1>>, <<c[1], c[2] - 1>>} : c \in F}
RECURSIVE Spread(_, _, _)
Spread(F, last, S) == LET G == (Around(last) \cap S) \ F IN IF G = {} THEN F ELSE Spread(F \cup G, G, S)
Reach(F, S) == Spread(F, F, S)
Region(col, c) == Reach({c}, {d \in DOMAIN col : col[d] = col[c]})

F_WALL == 1      \* make a cell a barrier
F_FILL == 2      \* flood from a cell
F_MARK == 3      \* mark the boundary of the box of cells between two cells (a polygon through their centres)
RingOf(lo, hi) == {<<i, j>> : i \in lo[1]..hi[1], j \in {lo[2], hi[2]}} \cup {<<i, j>> : i \in {lo[1], hi[1]}, j \in lo[2]..hi[2]}
\* op = <<code, i, j, k, l>>; result: new state, reported cells, returned flag
FStep(s, op) ==
    LET c == <<op[2], op[3]>>
    IN CASE op[1] = F_WALL -> [st |-> [s EXCEPT !.col[c] = WALL], seen |-> {}, ok |-> TRUE]
         [] op[1] = F_FILL /\ s.col[c] = WALL -> [st |-> [s EXCEPT !.n = @ + 1], seen |-> {}, ok |-> FALSE]
         [] op[1] = F_FILL /\ s.col[c] # WALL ->
                LET R == Region(s.col, c)
                IN [st |-> [col |-> [d \in DOMAIN s.col |-> IF d \in R THEN s.n + 1 ELSE s.col[d]], vis |-> s.vis \cup R, n |-> s.n + 1],
                    seen |-> R \ s.vis, ok |-> TRUE]
         [] op[1] = F_MARK ->
                LET R == RingOf(c, <<op[4], op[5]>>)
                IN [st |-> [col |-> [d \in DOMAIN s.col |-> IF d \in R THEN WALL ELSE s.col[d]], vis |-> s.vis \cup R, n |-> s.n],
                    seen |-> R \ s.vis, ok |-> TRUE]
SetIs(v, S) == NoRepeat(v) /\ Range(v) = S
RECURSIVE FRun(_, _, _, _)
FRun(s, ops, r, k) == IF k > Len(ops) THEN {s}
                      ELSE LET n == FStep(s, ops[k])
                           IN IF r[k][1] = n.ok /\ SetIs(r[k][2], n.seen) THEN FRun(n.st, ops, r, k + 1) ELSE {}
\* final colours: barriers are barriers, equal exactly where the specification says equal
ColoursOK(W, H, s, q) == LET at(c) == q[c[1] * H + c[2] + 1]
                             pairs == {<<at(c), s.col[c]>> : c \in FCells(W, H)}
                         IN  /\ \A e \in pairs : (e[1] = -1) = (e[2] = WALL)
                             /\ Cardinality({e[1] : e \in pairs}) = Cardinality(pairs)
                             /\ Cardinality({e[2] : e \in pairs}) = Cardinality(pairs)
FillOK(dims, ops, r) == LET fin == FRun(FInit(dims[1], dims[2]), ops, r[1], 1)
                        IN  fin # {} /\ \A s \in fin : ColoursOK(dims[1], dims[2], s, r[2])
-----------------------------------------------------------------------------
(* rasterising: outer polygon with holes, over grid g *)
Edges(poly) == {<<poly[k], poly[Nxt(poly, k)]>> : k \in 1..Len(poly)}
AllEdges(outer, holes) == Edges(outer) \cup UNION {Edges(holes[k]) : k \in 1..Len(holes)}
\* twice the coordinates, so that cell centres are integer (cell width even)
Centre(g, c) == <<XMin(g) + c[1] * CW(g) + CW(g) \div 2, YMin(g) + c[2] * CW(g) + CW(g) \div 2>>
InRegion(outer, holes, p) == Winding(outer, p) # 0 /\ \A k \in 1..Len(holes) : Winding(holes[k], p) = 0
RasterOK(g, outer, holes, v) ==
    /\ NoRepeat(v) /\ Range(v) \subseteq Cells(g)
    /\ \A c \in Cells(g) :
        LET l == CellCorner(g, c[1], c[2])
            h == CellCorner(g, c[1] + 1, c[2] + 1)
            crossed == \E e \in AllEdges(outer, holes) : SegBoxIn(e[1], e[2], l, h)
            touched == \E e \in AllEdges(outer, holes) : SegBox(e[1], e[2], l, h)
            centre == ~crossed /\ InRegion(outer, holes, Centre(g, c))
        IN  /\ crossed \/ centre => c \in Range(v)
            /\ c \in Range(v) => touched \/ centre
\* the interior cell reported after marking: none, or a cell that is not part of the boundary but in the region
EmptyOK(g, outer, holes, q) == q # << >> =>
    /\ q \in Cells(g)
    /\ InRegion(outer, holes, Centre(g, q))
    /\ \A e \in AllEdges(outer, holes) : ~SegBoxIn(e[1], e[2], CellCorner(g, q[1], q[2]), CellCorner(g, q[1] + 1, q[2] + 1))
HasEmpty(g, outer, holes, v, bnd) == {c \in Cells(g) : c \notin bnd /\ InRegion(outer, holes, Centre(g, c))}
FloodAccepts(rec) == LET a == rec.a
                         r == rec.r
                     IN CASE rec.op = "fill" -> FillOK(a[1], a[2], r)
                          [] rec.op = "raster" -> /\ RasterOK(a[1], a[2], a[3], r[1])
                                                  /\ EmptyOK(a[1], a[2], a[3], r[3])
                                                  /\ (r[3] = << >>) = (HasEmpty(a[1], a[2], a[3], r[1], Range(r[2])) = {})
=============================================================================
