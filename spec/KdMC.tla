---- MODULE KdMC ----
(***************************************************************************)
(* A k-d tree search over every point multiset and range of a small grid,  *)
(* with an arbitrary choice of split position at every node (including     *)
(* ties on the splitting coordinate): pruning by region never loses or     *)
(* invents a point.                                                        *)
(***************************************************************************)
EXTENDS KdTree, TLC
CONSTANTS N, M      \* N points, coordinates 0..M
VARIABLES pts, lo, hi, todo, out
vars == <<pts, lo, hi, todo, out>>
Pt == (0..M) \X (0..M)
Mn(S, d) == CHOOSE v \in {pts[k][d] : k \in S} : \A k \in S : v <= pts[k][d]
Mx(S, d) == CHOOSE v \in {pts[k][d] : k \in S} : \A k \in S : v >= pts[k][d]
All == 1..N
\* a node: point ids, region, splitting dimension
Init == /\ pts \in [All -> Pt] /\ lo \in Pt /\ hi \in Pt /\ lo[1] <= hi[1] /\ lo[2] <= hi[2]
        /\ \A k \in 1..(N - 1) : pts[k][1] <= pts[k + 1][1]
        /\ todo = {[ids |-> All, rlo |-> <<Mn(All, 1), Mn(All, 2)>>, rhi |-> <<Mx(All, 1), Mx(All, 2)>>, dim |-> 1, all |-> FALSE]}
        /\ out = {}
Overlaps(n) == \A d \in 1..2 : lo[d] <= n.rhi[d] /\ n.rlo[d] <= hi[d]
Contained(n) == InRange(lo, hi, n.rlo) /\ InRange(lo, hi, n.rhi)
Children(n, L, m) == {[ids |-> L, rlo |-> n.rlo, rhi |-> [n.rhi EXCEPT ![n.dim] = m], dim |-> 3 - n.dim, all |-> n.all],
                      [ids |-> n.ids \ L, rlo |-> [n.rlo EXCEPT ![n.dim] = m], rhi |-> n.rhi, dim |-> 3 - n.dim, all |-> n.all]}
Leaf(n) == Cardinality(n.ids) = 1
Expand == \E n \in todo :
    IF Leaf(n) THEN /\ out' = out \cup {k \in n.ids : n.all \/ InRange(lo, hi, pts[k])}
                    /\ todo' = todo \ {n} /\ UNCHANGED <<pts, lo, hi>>
    ELSE \E L \in SUBSET n.ids : \E m \in {pts[k][n.dim] : k \in n.ids \ L} :
            /\ L # {} /\ L # n.ids
            /\ \A k \in L : pts[k][n.dim] <= m
            /\ \A k \in n.ids \ L : pts[k][n.dim] >= m
            /\ todo' = (todo \ {n}) \cup {IF Contained(c) THEN [c EXCEPT !.all = TRUE] ELSE c : c \in {c \in Children(n, L, m) : n.all \/ Overlaps(c)}}
            /\ UNCHANGED <<pts, lo, hi, out>>
Spec == Init /\ [][Expand]_vars
Exact == todo = {} => out = {k \in All : InRange(lo, hi, pts[k])}
InRegion == \A n \in todo : \A k \in n.ids : InRange(n.rlo, n.rhi, pts[k])
====
