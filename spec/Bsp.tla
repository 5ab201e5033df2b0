-------------------------------- MODULE Bsp --------------------------------
(***************************************************************************)
(* C13: a binary space partition of directed segments.                     *)
(* A piece is <<P, Q>>, rational points, running the way its segment runs. *)
(***************************************************************************)
EXTENDS Polygons

\* piece lies on segment s and runs the same way
Along(s, pc) == /\ QOnSeg(s[1], s[2], pc[1]) /\ QOnSeg(s[1], s[2], pc[2]) /\ pc[1] # pc[2]
                /\ LET d == Sub(s[2], s[1])
                   IN  d[1] * (pc[2][1] * pc[1][3] - pc[1][1] * pc[2][3]) + d[2] * (pc[2][2] * pc[1][3] - pc[1][2] * pc[2][3]) > 0
SameWay(s, t) == Cross(s[1], s[2], t[1]) = 0 /\ Cross(s[1], s[2], t[2]) = 0 /\ Dt(Sub(s[2], s[1]), Sub(t[2], t[1])) > 0
Ct(S) == Cardinality(S)
\* the pieces cover every point exactly as often as the segments do, separately for each line and direction:
\* along the line, the number of pieces open at a point can only change where the number of segments does, and alike
Cover(segs, pcs) ==
    /\ \A k \in 1..Len(pcs) : \E s \in Range(segs) : Along(s, pcs[k])
    /\ \A s \in Range(segs) :
        LET T == {k \in 1..Len(segs) : SameWay(s, segs[k])}
            K == {k \in 1..Len(pcs) : \E t \in T : Along(segs[t], pcs[k])}
            pts == {QOf(segs[t][1]) : t \in T} \cup {QOf(segs[t][2]) : t \in T} \cup {pcs[k][1] : k \in K} \cup {pcs[k][2] : k \in K}
        IN  \A P \in pts : Ct({k \in K : pcs[k][1] = P}) - Ct({k \in K : pcs[k][2] = P})
                          = Ct({t \in T : QOf(segs[t][1]) = P}) - Ct({t \in T : QOf(segs[t][2]) = P})
-----------------------------------------------------------------------------
(* what hides what, seen from the integer point v *)
VCr(v, P, Q) == (P[1] - v[1] * P[3]) * (Q[2] - v[2] * Q[3]) - (P[2] - v[2] * P[3]) * (Q[1] - v[1] * Q[3])
\* line carrying a piece: an input segment
Carrier(segs, pc) == CHOOSE s \in Range(segs) : Along(s, pc)
EdgeOn(s, v) == OnLine(s[1], s[2], v)
\* P (weakly) within the wedge of the piece as seen from v; o is the sign of the wedge
Within(v, pc, o, P)  == VCr(v, pc[1], P) * o > 0 /\ VCr(v, P, pc[2]) * o > 0
WithinW(v, pc, o, P) == VCr(v, pc[1], P) * o >= 0 /\ VCr(v, P, pc[2]) * o >= 0
\* -1: P on the far side of s as seen from v, 1: on the near side, 0: on its line
Near(s, v, P) == Sgn(QCross(s[1], s[2], P)) * Orient(s[1], s[2], v)
\* piece i stands in front of (part of) piece j: for pieces whose interiors do not cross, neither seen edge on
Hides(si, i, sj, j, v) ==
    LET oi == Sgn(VCr(v, i[1], i[2]))
        oj == Sgn(VCr(v, j[1], j[2]))
        same == WithinW(v, i, oi, j[1]) /\ WithinW(v, i, oi, j[2])
    IN  \/ \E P \in {j[1], j[2]} : Within(v, i, oi, P) /\ Near(si, v, P) < 0
        \/ \E P \in {i[1], i[2]} : Within(v, j, oj, P) /\ Near(sj, v, P) > 0
        \/ same /\ (\E P \in {j[1], j[2]} : Near(si, v, P) < 0) /\ \A P \in {j[1], j[2]} : Near(si, v, P) <= 0
\* far to near
PaintersOrder(segs, v, pcs) ==
    LET car == [k \in 1..Len(pcs) |-> Carrier(segs, pcs[k])]
    IN  \A i \in 1..Len(pcs) : \A j \in (i + 1)..Len(pcs) :
            ~EdgeOn(car[i], v) /\ ~EdgeOn(car[j], v) => ~Hides(car[i], pcs[i], car[j], pcs[j], v)
\* from viewpoint v every piece is visited, but those seen edge on may be left out
Unseen(segs, v) == {k \in 1..Len(segs) : EdgeOn(segs[k], v)}
PaintOK(segs, v, pcs) ==
    LET vis == SelectSeq(segs, LAMBDA s : ~EdgeOn(s, v))
        vpc == SelectSeq(pcs, LAMBDA pc : \E s \in Range(vis) : Along(s, pc))
        rest == SelectSeq(pcs, LAMBDA pc : ~\E s \in Range(vis) : Along(s, pc))
    IN  /\ Cover(vis, vpc)
        /\ PaintersOrder(segs, v, pcs)
        /\ \A k \in 1..Len(rest) : \E u \in Unseen(segs, v) : Along(segs[u], rest[k])
           \* edge on: visited at most as often as stored
        /\ \A k \in 1..Len(rest) : Ct({l \in 1..Len(rest) : rest[l] = rest[k]}) <= Ct({u \in Unseen(segs, v) : Along(segs[u], rest[k])})
(* building: a piece together with the segment that carries it; t is the segment whose line splits *)
Piece(s) == [on |-> s, pc |-> <<QOf(s[1]), QOf(s[2])>>]
Side(t, x) == LET a == Sgn(QCross(t[1], t[2], x.pc[1]))
                  b == Sgn(QCross(t[1], t[2], x.pc[2]))
              IN  IF a # 0 THEN IF a * b < 0 THEN 2 ELSE a ELSE b
Cut(t, x) == LineX(t[1], t[2], x.on[1], x.on[2])
Part(t, x, side) == \* the part of a piece on one side
    LET a == Sgn(QCross(t[1], t[2], x.pc[1]))
    IN  IF a = side THEN [x EXCEPT !.pc[2] = Cut(t, x)] ELSE [x EXCEPT !.pc[1] = Cut(t, x)]
Take(t, ps, side) == LET sub == SelectSeq(ps, LAMBDA x : Side(t, x) = side \/ (side # 0 /\ Side(t, x) = 2))
                     IN  [i \in 1..Len(sub) |-> IF Side(t, sub[i]) = 2 THEN Part(t, sub[i], side) ELSE sub[i]]
-----------------------------------------------------------------------------
(* location codes of the code under test *)
BSP_IN == -1
BSP_OUT == 1
BSP_BORDER == 0
LocateCode(poly, p) == IF OnBorder(poly, p) THEN BSP_BORDER ELSE IF Winding(poly, p) # 0 THEN BSP_IN ELSE BSP_OUT
LocateOK(poly, ps, r) == \A k \in 1..Len(ps) : r[k] = LocateCode(poly, ps[k])

BspAccepts(rec) ==
    LET a == rec.a
        r == rec.r
    IN CASE rec.op = "paint"  -> \A k \in 1..Len(a[2]) : PaintOK(a[1], a[2][k], r[k])
         [] rec.op = "locate" -> \A k \in 1..Len(r) : LocateOK(a[1], a[2], r[k])
=============================================================================
