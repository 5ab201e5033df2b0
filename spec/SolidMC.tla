---- MODULE SolidMC ----
(***************************************************************************)
(* Where space is solid, decided by descending a solid-leaf partition:     *)
(* every simple polygon with N vertices on a small grid, of either         *)
(* orientation, every point, every order of splitting.  Coplanar walls go  *)
(* to the side they face and, when MARK, do not split again.               *)
(***************************************************************************)
EXTENDS Solid, TLC
CONSTANTS N, M, MARK
VARIABLES poly, p, todo, found
vars == <<poly, p, todo, found>>
Grid == (0..M) \X (0..M)
Simple(v) == /\ \A i, j \in 1..N : i # j => v[i] # v[j]
             /\ Area2(v) # 0
             /\ \A i \in 1..N : LET k == Nxt(v, i) IN
                    /\ (Cross(v[i], v[k], v[Nxt(v, k)]) = 0 => Dot(v[k], v[i], v[Nxt(v, k)]) < 0)
                    /\ \A j \in 1..N : j # i /\ j # k /\ Nxt(v, j) # i => ~SegsMeet(v[i], v[k], v[j], v[Nxt(v, j)])
E == IF Area2(poly) > 0 THEN 1 ELSE 0
Item(s) == [on |-> s, pc |-> <<QOf(s[1]), QOf(s[2])>>, used |-> FALSE]
Init == /\ poly \in {v \in [1..N -> Grid] : v[1] = <<0, 0>> /\ Simple(v)}
        /\ p \in (0..M) \X (0..(M + 1))
        /\ todo = {[ps |-> [i \in 1..N |-> Item(<<poly[i], poly[Nxt(poly, i)]>>)], leaf |-> EMPTY]}
        /\ found = {}
Facing(t, x) == Dt(Sub(t[2], t[1]), Sub(x.on[2], x.on[1])) > 0
\* pieces that go to one side, in order; split at the line; coplanar ones by the way they face
Into(t, ps, side, i) ==
    LET x == ps[i]
        s == Side(t, x)
    IN  IF s = side THEN <<x>>
        ELSE IF s = 2 THEN <<Part(t, x, side)>>
        ELSE IF s = 0 /\ (Facing(t, x) <=> side > 0) THEN <<[x EXCEPT !.used = x.used \/ MARK \/ x.on = t]>>
        ELSE << >>
RECURSIVE IntoAll(_, _, _, _)
IntoAll(t, ps, side, i) == IF i > Len(ps) THEN << >> ELSE Into(t, ps, side, i) \o IntoAll(t, ps, side, i + 1)
Free(ps) == {k \in 1..Len(ps) : ~ps[k].used}
Descend == \E n \in todo :
    IF Free(n.ps) = {} THEN todo' = todo \ {n} /\ found' = found \cup {n.leaf} /\ UNCHANGED <<poly, p>>
    ELSE \E k \in Free(n.ps) :
        LET t == n.ps[k].on
            o == Orient(t[1], t[2], p)
            front == [ps |-> IntoAll(t, n.ps, 1, 1), leaf |-> EMPTY]
            back == [ps |-> IntoAll(t, n.ps, -1, 1), leaf |-> SOLID]
        IN  /\ todo' = (todo \ {n}) \cup (IF o > 0 THEN {front} ELSE IF o < 0 THEN {back} ELSE {front, back})
            /\ UNCHANGED <<poly, p, found>>
Spec == Init /\ [][Descend]_vars
Class == IF Cardinality(found) > 1 THEN BOUNDARY ELSE CHOOSE c \in found : TRUE
Decided == todo = {} => Class = SpaceAt(<<poly>>, Walls(<<poly>>), E, p)
====
