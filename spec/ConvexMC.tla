---- MODULE ConvexMC ----
(* a convex polygon moves in unit steps past another: the interval of contact computed from vertex-edge events against
   the static test at every step, and the static test against separation along edge normals *)
EXTENDS Convex, TLC
CONSTANTS M, Steps, Shapes, Shift, VX
VARIABLES p, q, v, k
vars == <<p, q, v, k>>
Pt == {<<x, y>> : x \in 0..M, y \in 0..M}
Tri == {<<a, b, c>> \in Pt \X Pt \X Pt : LexLess(a, b) /\ LexLess(b, c) /\ Cross(a, b, c) # 0}
QShapes == <<<<<<0, 0>>, <<1, 0>>, <<1, 1>>, <<0, 1>>>>, <<<<0, 0>>, <<2, 1>>, <<1, 2>>>>, <<<<0, 1>>, <<1, 0>>, <<2, 1>>, <<1, 2>>>>, <<<<0, 0>>, <<2, 0>>, <<0, 1>>>>, <<<<1, 0>>, <<2, 0>>, <<2, 1>>, <<1, 2>>, <<0, 2>>, <<0, 1>>>>>>
Init == p \in Tri /\ k = 0 /\ v \in {<<x, y>> : x \in -1..VX, y \in -1..1} \ {<<0, 0>>}
        /\ \E j \in 1..Shapes, s \in {<<x, y>> : x \in -Shift..1, y \in -1..Shift} : q = Moved(QShapes[j], s)
Next == k < Steps /\ k' = k + 1 /\ q' = Moved(q, v) /\ UNCHANGED <<p, v>>
Spec == Init /\ [][Next]_vars
Q0 == Moved(q, <<-k * v[1], -k * v[2]>>)
\* SAT for the closed sets and for their interiors
Out(c, e) == \A j \in 1..Len(c) : Cross(e[1], e[2], c[j]) < 0
Separated(P, Q) == (\E e \in Edges(Ccw(P)) : Out(Q, e)) \/ (\E e \in Edges(Ccw(Q)) : Out(P, e))
Sat == Meet(p, q) <=> ~Separated(p, q)
Sym == Meet(p, q) = Meet(q, p) /\ Overlap(p, q) = Overlap(q, p)
\* contact exactly between the first and the last event time
Interval == LET T == Fwd(TouchTimes(p, Q0, v))
                now == Meet(p, Q0)
            IN  Meet(p, q) <=> IF T = {} THEN FALSE
                               ELSE /\ RCmp(IF now THEN <<0, 1>> ELSE MinQ(T), <<k, 1>>) <= 0
                                    /\ RCmp(<<k, 1>>, MaxT(T)) <= 0
\* the corners of the intersection are in both, and there are at least three iff they share interior points
Cornered == k = 0 => LET C == {x \in Cands(p, q) : Corner(p, q, x)}
                     IN  /\ \A x \in C : QInHull(p, x) /\ QInHull(q, x)
                         /\ Overlap(p, q) => Cardinality(C) >= 3
                         /\ ~Meet(p, q) => C = {}
                         /\ FaceTouch(p, q) => Cardinality(Cands(p, q)) >= 2
====
