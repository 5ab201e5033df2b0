------------------------------ MODULE Containers ------------------------------
(***************************************************************************)
(* C30: polygons, polylines, polygons with holes and the simple shapes     *)
(* hold what they were given.  Registers 1, 2 are polygons, 3, 4 polylines *)
(* and 5, 6 polygons with holes; a value is a sequence of point names      *)
(* (indices of a table), or an outer ring with a sequence of holes.  An    *)
(* operation <<code, a, b, c>> changes register a, and an operation that   *)
(* takes its argument by move also gives up register b, which the driver   *)
(* then resets to the empty value; every other register keeps its value.   *)
(* In particular nothing given as an lvalue is changed.                    *)
(***************************************************************************)
EXTENDS Geo

K_COPY == 1        \* a = b
K_MOVE == 2        \* a = move(b)
K_MAKE == 3        \* a constructed as a copy of b
K_TAKE == 4        \* a constructed by move from b
K_PUSH == 5        \* push point c on a
K_POP == 6         \* drop the last point of a
K_LIST == 7        \* a gets the c-th list in the b-th manner (assignment and construction from lists, vectors and ranges)
K_CROSS == 8       \* a gets the points of b, a sequence of the other kind
K_PUT == 9         \* the b-th point of a becomes c
K_SETOUTER == 10   \* set_outer(b); c = 0 lvalue, 1 const lvalue, 2 moved
K_ADDHOLE == 11    \* add_hole(b); same
K_OUTER == 12      \* a constructed from outer b; c = 0 copied, 1 moved
K_FULL == 13       \* a constructed from outer b and the holes of the other register; c: 0 both copied, 1 outer moved, 2 holes moved, 3 both
K_GETOUTER == 14   \* polygon a = get_outer(b)
K_DROPHOLE == 15   \* the last hole of a is removed through get_holes
K_GROW == 16       \* push point c on the outer ring of a through get_outer
K_GETHOLE == 17    \* polygon a = c-th hole of b

Seqs == 1..4
Holed == 5..6
None == <<>>
NoHoles == [o |-> <<>>, h |-> <<>>]
Lists == <<<<1, 2, 3>>, <<4>>, <<>>, <<2, 2, 5, 1>>, <<5, 4, 3, 2, 1, 5>>>>
Sort(g) == IF g <= 2 THEN 1 ELSE IF g <= 4 THEN 2 ELSE 3
Empty(g) == IF g \in Seqs THEN None ELSE NoHoles
Begin == [g \in 1..6 |-> IF g = 1 THEN <<1, 2, 3>> ELSE IF g = 2 THEN <<3, 4>> ELSE IF g = 3 THEN <<1>> ELSE IF g = 4 THEN <<2, 3, 4>>
                         ELSE IF g = 5 THEN [o |-> <<1, 2, 3>>, h |-> <<<<4, 5, 1>>>>] ELSE NoHoles]
Other(g) == IF g = 5 THEN 6 ELSE 5
ChopLast(s) == IF s = <<>> THEN <<>> ELSE SubSeq(s, 1, Len(s) - 1)

Enabled(v, op) ==
    LET a == op[2]  b == op[3]  c == op[4]
    IN  CASE op[1] \in {K_COPY, K_MAKE, K_MOVE, K_TAKE} -> a \in 1..6 /\ b \in 1..6 /\ Sort(a) = Sort(b) /\ (op[1] = K_COPY \/ a # b)
          [] op[1] = K_PUSH -> a \in Seqs
          [] op[1] = K_POP -> IF a \in Seqs THEN Len(v[a]) > 0 ELSE FALSE
          [] op[1] = K_LIST -> a \in Seqs /\ c \in 1..Len(Lists)
          [] op[1] = K_CROSS -> a \in Seqs /\ b \in Seqs /\ Sort(a) # Sort(b)
          [] op[1] = K_PUT -> IF a \in Seqs THEN b \in 1..Len(v[a]) ELSE FALSE
          [] op[1] \in {K_SETOUTER, K_ADDHOLE, K_OUTER, K_FULL} -> a \in Holed /\ b \in 1..2
          [] op[1] = K_GETOUTER -> a \in 1..2 /\ b \in Holed
          [] op[1] = K_DROPHOLE -> IF a \in Holed THEN Len(v[a].h) > 0 ELSE FALSE
          [] op[1] = K_GROW -> a \in Holed
          [] op[1] = K_GETHOLE -> IF a \in 1..2 /\ b \in Holed THEN c \in 1..Len(v[b].h) ELSE FALSE
          [] OTHER -> FALSE
After(v, op) ==
    LET a == op[2]  b == op[3]  c == op[4]
    IN  CASE op[1] \in {K_COPY, K_MAKE} -> [v EXCEPT ![a] = v[b]]
          [] op[1] \in {K_MOVE, K_TAKE} -> [v EXCEPT ![a] = v[b], ![b] = Empty(b)]
          [] op[1] = K_PUSH -> [v EXCEPT ![a] = Append(@, c)]
          [] op[1] = K_POP -> [v EXCEPT ![a] = ChopLast(@)]
          [] op[1] = K_LIST -> [v EXCEPT ![a] = Lists[c]]
          [] op[1] = K_CROSS -> [v EXCEPT ![a] = v[b]]
          [] op[1] = K_PUT -> [v EXCEPT ![a][b] = c]
          [] op[1] = K_SETOUTER -> [v EXCEPT ![a].o = v[b], ![b] = IF c = 2 THEN None ELSE @]
          [] op[1] = K_ADDHOLE -> [v EXCEPT ![a].h = Append(@, v[b]), ![b] = IF c = 2 THEN None ELSE @]
          [] op[1] = K_OUTER -> [v EXCEPT ![a] = [o |-> v[b], h |-> <<>>], ![b] = IF c = 1 THEN None ELSE @]
          [] op[1] = K_FULL -> [v EXCEPT ![a] = [o |-> v[b], h |-> v[Other(a)].h], ![b] = IF c \in {1, 3} THEN None ELSE @,
                                         ![Other(a)].h = IF c \in {2, 3} THEN <<>> ELSE @]
          [] op[1] = K_GETOUTER -> [v EXCEPT ![a] = v[b].o]
          [] op[1] = K_DROPHOLE -> [v EXCEPT ![a].h = ChopLast(@)]
          [] op[1] = K_GROW -> [v EXCEPT ![a].o = Append(@, c)]
          [] op[1] = K_GETHOLE -> [v EXCEPT ![a] = v[b].h[c]]
\* the registers an operation may change
Named(op) == {op[2]} \cup (CASE op[1] \in {K_MOVE, K_TAKE} -> {op[3]}
                               [] op[1] \in {K_SETOUTER, K_ADDHOLE} -> IF op[4] = 2 THEN {op[3]} ELSE {}
                               [] op[1] = K_OUTER -> IF op[4] = 1 THEN {op[3]} ELSE {}
                               [] op[1] = K_FULL -> (IF op[4] \in {1, 3} THEN {op[3]} ELSE {}) \cup (IF op[4] \in {2, 3} THEN {Other(op[2])} ELSE {})
                               [] OTHER -> {})
\* a sequence is seen by index, forwards, backwards, by its ends and its size
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
SeqView(s) == <<s, s, Rev(s), IF s = <<>> THEN <<>> ELSE <<s[1], s[Len(s)]>>, Len(s), s = <<>>>>
\* the border segments of a ring and of a polygon with holes
RingSegs(s) == [k \in 1..Len(s) |-> <<s[k], s[1 + (k % Len(s))]>>]
RECURSIVE HoleSegs(_, _)
HoleSegs(h, k) == IF k > Len(h) THEN <<>> ELSE RingSegs(h[k]) \o HoleSegs(h, k + 1)
\* (a single point is no ring: nothing is asked then)
HoledView(w) == <<SeqView(w.o), [k \in 1..Len(w.h) |-> SeqView(w.h[k])],
                  IF Len(w.o) = 1 \/ \E k \in 1..Len(w.h) : Len(w.h[k]) = 1 THEN <<>> ELSE RingSegs(w.o) \o HoleSegs(w.h, 1)>>
View(v) == [g \in 1..6 |-> IF g \in Seqs THEN SeqView(v[g]) ELSE HoledView(v[g])]
RECURSIVE Run(_, _, _, _)
Run(v, ops, r, n) == IF n > Len(ops) THEN TRUE
                     ELSE Enabled(v, ops[n]) /\ LET w == After(v, ops[n]) IN r[n] = View(w) /\ Run(w, ops, r, n + 1)
HistOK(ops, r) == Len(r) = Len(ops) + 1 /\ r[1] = View(Begin) /\ Run(Begin, ops, Tail(r), 1)

-----------------------------------------------------------------------------
(* simple shapes: registers 1, 2 segments, 3, 4 boxes, 5, 6 spheres of dimension D *)
S_COPY == 1        \* a = b (c = 1: constructed)
S_START == 2       \* first point of a := point (segment start, box from two corners, centre); c the manner
S_END == 3         \* end of a := point
S_BACK == 4        \* a = reverse of b
S_MAKE == 5        \* a from two points, p and q
S_RADIUS == 6      \* radius of a := c
S_GROW == 7        \* box a expanded by box b
S_GROWTO == 8      \* box a expanded by the box of p and q, given as a tuple
\* <<code, a, b, c, p, q>>, p and q points; a segment is <<start, end>>, a box <<low, high>>, a sphere <<centre, <<radius>>>>
MinP(p, q) == [k \in 1..Len(p) |-> IF p[k] <= q[k] THEN p[k] ELSE q[k]]
MaxP(p, q) == [k \in 1..Len(p) |-> IF p[k] >= q[k] THEN p[k] ELSE q[k]]
ShapeAfter(v, op) ==
    LET a == op[2]  b == op[3]  c == op[4]  p == op[5]  q == op[6]
    IN  CASE op[1] = S_COPY -> [v EXCEPT ![a] = v[b]]
          [] op[1] = S_START -> [v EXCEPT ![a][1] = p]
          [] op[1] = S_END -> [v EXCEPT ![a][2] = p]
          [] op[1] = S_BACK -> [v EXCEPT ![a] = <<v[b][2], v[b][1]>>]
          [] op[1] = S_MAKE -> [v EXCEPT ![a] = IF a <= 2 THEN <<p, q>> ELSE IF a <= 4 THEN <<MinP(p, q), MaxP(p, q)>> ELSE <<p, <<c>>>>]
          [] op[1] = S_RADIUS -> [v EXCEPT ![a][2] = <<c>>]
          [] op[1] = S_GROW -> [v EXCEPT ![a] = <<MinP(@[1], v[b][1]), MaxP(@[2], v[b][2])>>]
          [] op[1] = S_GROWTO -> [v EXCEPT ![a] = <<MinP(@[1], MinP(p, q)), MaxP(@[2], MaxP(p, q))>>]
ShapeCan(op) == LET a == op[2]  b == op[3]
                IN  CASE op[1] = S_COPY -> (a + 1) \div 2 = (b + 1) \div 2 /\ ~(a = b /\ op[4] = 1)
                      [] op[1] = S_START -> a \in {1, 2, 5, 6}
                      [] op[1] = S_END -> a \in {1, 2}
                      [] op[1] = S_BACK -> a \in {1, 2} /\ b \in {1, 2}
                      [] op[1] = S_MAKE -> a \in 1..6
                      [] op[1] = S_RADIUS -> a \in {5, 6}
                      [] op[1] = S_GROW -> a \in {3, 4} /\ b \in {3, 4}
                      [] op[1] = S_GROWTO -> a \in {3, 4}
                      [] OTHER -> FALSE
Origin(d) == [k \in 1..d |-> 0]
ShapeBegin(d) == [g \in 1..6 |-> IF g <= 4 THEN <<Origin(d), Origin(d)>> ELSE <<Origin(d), <<0>>>>]
\* a segment by its ends and its vertices; a box by its bounds, the corners of a plane box in order, and its tuple; a sphere by centre and radius
BoxTuple(b) == IF Len(b[1]) = 2 THEN <<b[1][1], b[2][1], b[1][2], b[2][2]>> ELSE <<b[1][1], b[2][1], b[1][2], b[2][2], b[1][3], b[2][3]>>
Corners(b) == IF Len(b[1]) = 2 THEN <<b[1], <<b[2][1], b[1][2]>>, b[2], <<b[1][1], b[2][2]>>>> ELSE <<>>
ShapeView(v) == [g \in 1..6 |-> IF g <= 2 THEN <<v[g][1], v[g][2], v[g][1], v[g][2], 2>>
                                ELSE IF g <= 4 THEN <<v[g][1], v[g][2], Corners(v[g]), BoxTuple(v[g])>>
                                ELSE <<v[g][1], v[g][2][1]>>]
RECURSIVE ShapeRun(_, _, _, _)
ShapeRun(v, ops, r, n) == IF n > Len(ops) THEN TRUE
                          ELSE ShapeCan(ops[n]) /\ LET w == ShapeAfter(v, ops[n]) IN r[n] = ShapeView(w) /\ ShapeRun(w, ops, r, n + 1)
ShapesOK(d, ops, r) == Len(r) = Len(ops) /\ ShapeRun(ShapeBegin(d), ops, r, 1)

(* lines: reference point, unit direction, its left normal, and the signed distance from the origin along the normal *)
LineOK(p, u, l, r) == /\ l > 0 /\ l * l = u[1] * u[1] + u[2] * u[2]
                      /\ \A k \in 1..Len(r) : r[k] = <<<<p[1], p[2], 1>>, <<RNorm(u[1], l), RNorm(u[2], l)>>, <<RNorm(-u[2], l), RNorm(u[1], l)>>, RNorm(-u[2] * p[1] + u[1] * p[2], l)>>

\* a plane of space: reference point, unit directions, unit normal along (b - a) x (c - a), distance along it; lengths squared
D3(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
X3(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
M3(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Unit3(u) == [k \in 1..3 |-> <<Sgn(u[k]), RNorm(u[k] * u[k], D3(u, u))>>]
PlaneOK(a, b, c, r) == LET u == M3(b, a)
                           v == M3(c, a)
                           n == X3(u, v)
                           d == D3(n, a)
                       IN  \A k \in 1..Len(r) : r[k] = <<a, Unit3(u), Unit3(v), Unit3(n), Sgn(d), RNorm(d * d, D3(n, n))>>

ContAccepts(rec) == LET a == rec.a  r == rec.r
                    IN  CASE rec.op = "hist"  -> HistOK(a, r)
                          [] rec.op = "shape" -> ShapesOK(a[1], a[2], r)
                          [] rec.op = "line"  -> LineOK(a[1], a[2], a[3], r)
                          [] rec.op = "plane" -> PlaneOK(a[1], a[2], a[3], r)
                          \* fixed and double-ended containers, rectangles and capsules
                          [] rec.op = "held"  -> \A k \in 1..Len(r) : r[k] = SeqView(a)
                          [] rec.op = "capsule" -> \A k \in 1..Len(r) : r[k] = a
                          [] OTHER -> FALSE
=============================================================================
