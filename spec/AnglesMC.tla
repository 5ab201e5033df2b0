---- MODULE AnglesMC ----
(* exhaustive check of the angular order, sectors and cones on all directions of a small grid *)
EXTENDS Angles, TLC
CONSTANT M
VARIABLES ref, a, b, c
V == {<<x, y>> : x \in -M..M, y \in -M..M} \ {<<0, 0>>}
Init == ref \in V /\ a \in V /\ b = <<1, 0>> /\ c = <<1, 0>>
Next == b' \in V /\ c' \in V /\ UNCHANGED <<ref, a>> /\ b = <<1, 0>> /\ c = <<1, 0>>
Spec == Init /\ [][Next]_<<ref, a, b, c>>
Irreflexive == ~AngLess(ref, a, a)
Asymmetric == ~(AngLess(ref, a, b) /\ AngLess(ref, b, a))
Transitive == AngLess(ref, a, b) /\ AngLess(ref, b, c) => AngLess(ref, a, c)
SameOnly == (~AngLess(ref, a, b) /\ ~AngLess(ref, b, a)) <=> SameDir(a, b)
\* sectors of less than a half turn are the intersection, reflex ones the union, of two half planes
ConvexSector == Cr(a, b) > 0 => (Between(a, b, c, TRUE) <=> InCone(a, b, <<0, 0>>, c))
ReflexSector == Cr(a, b) < 0 => (Between(a, b, c, FALSE) <=> ~InCone(b, a, <<0, 0>>, c))
Complement == ~SameDir(a, b) /\ ~SameDir(a, c) /\ ~SameDir(b, c) => Between(a, b, c, FALSE) # Between(b, a, c, FALSE)
Rotates == Between(a, b, c, FALSE) => Between(<<-a[2], a[1]>>, <<-b[2], b[1]>>, <<-c[2], c[1]>>, FALSE)
\* the piece kept by a cone is where its points are
ConeExact == Cr(ref, a) > 0 /\ b # c =>
    LET pc == ConePiece(ref, a, <<0, 0>>, b, c)
    IN  \A k \in 0..4 : LET q == QAlong(b, c, k, 4)
                            inside == Cr(ref, <<q[1], q[2]>>) >= 0 /\ Cr(<<q[1], q[2]>>, a) >= 0
                        IN  inside <=> (pc # << >> /\ RCmp(pc[1], RNorm(k, 4)) <= 0 /\ RCmp(RNorm(k, 4), pc[2]) <= 0)
====
