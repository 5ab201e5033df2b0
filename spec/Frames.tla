-------------------------------- MODULE Frames --------------------------------
(***************************************************************************)
(* C29: the same point in cartesian and in polar coordinates.  Four        *)
(* registers, two cartesian (1, 2) and two polar (3, 4); any history of    *)
(* setting a register by its own coordinates, assigning and constructing   *)
(* one from another leaves every register at the point the history says,   *)
(* and either view of a register is that of its point.                     *)
(* Points are <<x, y, rho>> or <<x, y, rho, z, r>> with integer rho =      *)
(* |(x, y)| and r = |(x, y, z)|.                                           *)
(***************************************************************************)
EXTENDS Geo

F_SET == 1      \* <<1, register, point>>
F_ASSIGN == 2   \* <<2, to, from>>
F_MAKE == 3     \* <<3, to, from>>: destroyed and constructed from the other
Regs == 1..4
PointOK(p) == /\ p[3] >= 0 /\ p[3] * p[3] = p[1] * p[1] + p[2] * p[2]
              /\ Len(p) = 5 => p[5] >= 0 /\ p[5] * p[5] = p[3] * p[3] + p[4] * p[4]
Start == [g \in Regs |-> 1]
After(v, op) == IF op[1] = F_SET THEN [v EXCEPT ![op[2]] = op[3]] ELSE [v EXCEPT ![op[2]] = v[op[3]]]
RECURSIVE State(_, _)
State(ops, n) == IF n = 0 THEN Start ELSE After(State(ops, n - 1), ops[n])

\* views.  A direction is given by cosine, sine and whether the angle is in its range
CartOK(p, c) == c = IF Len(p) = 3 THEN <<<<p[1], 1>>, <<p[2], 1>>>> ELSE <<<<p[1], 1>>, <<p[2], 1>>, <<p[4], 1>>>>
DirOK(x, y, h, d) == IF h = 0 THEN TRUE ELSE d[1] = RNorm(x, h) /\ d[2] = RNorm(y, h) /\ d[3]
PolarOK(p, q) == IF Len(p) = 3 THEN q[1] = <<p[3], 1>> /\ DirOK(p[1], p[2], p[3], q[2])
                 ELSE q[1] = <<p[5], 1>> /\ DirOK(p[1], p[2], p[3], q[2]) /\ DirOK(p[4], p[3], p[5], q[3])
ViewOK(g, p, w) == CartOK(p, w[1]) /\ PolarOK(p, w[2]) /\ (IF g <= 2 THEN CartOK(p, w[3]) ELSE PolarOK(p, w[3]))
FramesOK(pts, ops, r) == /\ \A k \in 1..Len(pts) : PointOK(pts[k])
                         /\ Len(r) = Len(ops)
                         /\ \A n \in 1..Len(ops) : LET v == State(ops, n) IN \A g \in Regs : ViewOK(g, pts[v[g]], r[n][g])

\* a polar position given by radius, direction c/h, s/h and whole turns names the point <<R c / h, R s / h>>
TurnOK(R, c, s, h, r) == h > 0 /\ h * h = c * c + s * s /\ r = <<RNorm(R * c, h), RNorm(R * s, h)>>

FramesAccepts(rec) == LET a == rec.a  r == rec.r
                      IN  CASE rec.op = "hist" -> FramesOK(a[1], a[2], r)
                            [] rec.op = "turn" -> TurnOK(a[1], a[2], a[3], a[4], r)
                            \* a sequence without a frame is read by its coordinates as they stand, in any frame
                            [] rec.op = "raw" -> r = <<<<<<a[1], 1>>, <<a[2], 1>>>>, <<<<a[1], 1>>, <<a[2], 1>>>>, <<<<a[1], 1>>, <<a[2], 1>>>>>>
                            [] OTHER -> FALSE
=============================================================================
