---- MODULE BspLocateMC ----
(***************************************************************************)
(* Locating a point in a partition of the boundary of a polygon: every     *)
(* simple counter-clockwise polygon with N vertices on a small grid, every *)
(* point of the grid, every choice of splitting edge.  On a cutting line   *)
(* both sides are asked.                                                   *)
(***************************************************************************)
EXTENDS Bsp, TLC
CONSTANTS N, M
VARIABLES poly, p, todo, found
vars == <<poly, p, todo, found>>
G == (0..M) \X (0..M)
Simple(v) == /\ \A i, j \in 1..N : i # j => v[i] # v[j]
             /\ Area2(v) > 0
             /\ \A i \in 1..N : LET k == Nxt(v, i) IN
                    /\ (Cross(v[i], v[k], v[Nxt(v, k)]) = 0 => Dot(v[k], v[i], v[Nxt(v, k)]) < 0)
                    /\ \A j \in 1..N : j # i /\ j # k /\ Nxt(v, j) # i => ~SegsMeet(v[i], v[k], v[j], v[Nxt(v, j)])
Init == /\ poly \in {v \in [1..N -> G] : v[1] = <<0, 0>> /\ Simple(v)}
        /\ p \in {<<x, y>> : x \in 0..M, y \in 0..(M + 1)}
        /\ todo = {[ps |-> [i \in 1..N |-> Piece(<<poly[i], poly[Nxt(poly, i)]>>)], dflt |-> BSP_BORDER]}
        /\ found = {}
Node(ps, d) == [ps |-> ps, dflt |-> d]
Descend == \E n \in todo :
    IF n.ps = << >> THEN todo' = todo \ {n} /\ found' = found \cup {n.dflt} /\ UNCHANGED <<poly, p>>
    ELSE \E x \in Range(n.ps) :
        LET t == x.on
            o == Orient(t[1], t[2], p)
            pos == Node(Take(t, n.ps, 1), BSP_IN)
            neg == Node(Take(t, n.ps, -1), BSP_OUT)
            on == \E y \in Range(Take(t, n.ps, 0)) : QOnSeg(y.on[1], y.on[2], QOf(p)) /\ VCr(p, y.pc[1], y.pc[2]) = 0
                        /\ (QOf(p) \in {y.pc[1], y.pc[2]} \/ Sgn((y.pc[1][1] - p[1] * y.pc[1][3]) * (y.pc[2][1] - p[1] * y.pc[2][3]) + (y.pc[1][2] - p[2] * y.pc[1][3]) * (y.pc[2][2] - p[2] * y.pc[2][3])) < 0)
        IN  /\ todo' = (todo \ {n}) \cup (IF o > 0 THEN {pos} ELSE IF o < 0 THEN {neg}
                                          ELSE IF on THEN {} ELSE {pos, neg})
            /\ found' = IF o = 0 /\ on THEN found \cup {BSP_BORDER} ELSE found
            /\ UNCHANGED <<poly, p>>
Spec == Init /\ [][Descend]_vars
\* off the border all the answers agree; on it, some piece says so or the answers disagree
Located == todo = {} => IF OnBorder(poly, p) THEN BSP_BORDER \in found \/ Cardinality(found) > 1 ELSE found = {LocateCode(poly, p)}
====
