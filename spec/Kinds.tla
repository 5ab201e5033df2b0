------------------------------- MODULE Kinds -------------------------------
(***************************************************************************)
(* C34: points and vectors of the user's own kinds.  Three points and      *)
(* three vectors in space, each of another kind (members behind functions, *)
(* tuples, plain structs, index operators, mixed numbers); the model knows *)
(* only what they stand for.  Operations <<code, to, a, b, c>>:            *)
(*   1  point to: coordinate a becomes b     2  vector to, likewise        *)
(*   3  point made from point a              4  vector made from vector a  *)
(*   5  point = point a + vector b           6  point = point a - vector b *)
(*   7  vector = point a - point b           8  vector = vector a + b      *)
(*   9  vector = vector a - vector b        10  vector = a ^ b             *)
(*  11  vector = c * vector a               12  vector = point a + vector b*)
(*  13  vector = - vector a                 14  point made of (a, b, c)    *)
(*  15  vector made of (a, b, c)            16  point = half way from a to b*)
(*  17  vector = vector a + c * vector to   18  point = point to + c * (a -*)
(*                                              b), both points            *)
(*  19  point to is copied and the copy set; 20  the same with a vector    *)
(* Coordinates are counted in units of 1/u.  In the mixed world the second *)
(* and third coordinate of point 1 and the third of vector 2 are integers  *)
(* and keep the whole part of what they are given.                         *)
(***************************************************************************)
EXTENDS Polygons

K3Add(u, v) == <<u[1] + v[1], u[2] + v[2], u[3] + v[3]>>
K3Sub(u, v) == <<u[1] - v[1], u[2] - v[2], u[3] - v[3]>>
K3Mul(n, v) == <<n * v[1], n * v[2], n * v[3]>>
K3Dot(u, v) == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
K3Cross(u, v) == <<u[2] * v[3] - u[3] * v[2], u[3] * v[1] - u[1] * v[3], u[1] * v[2] - u[2] * v[1]>>
K3Part(n, v) == <<v[1] \div n, v[2] \div n, v[3] \div n>>
K3Mid(u, v) == <<(u[1] + v[1]) \div 2, (u[2] + v[2]) \div 2, (u[3] + v[3]) \div 2>>
K3Max(v) == SetMax({Abs(v[1]), Abs(v[2]), Abs(v[3])})

KStart == [p |-> <<<<1, 2, 3>>, <<-2, 0, 4>>, <<3, 3, -1>>>>, v |-> <<<<1, 0, -1>>, <<0, 2, 1>>, <<-1, 1, 3>>>>]
KNew(s, op, u) ==
    LET t == op[2]
        a == op[3]
        b == op[4]
        c == op[5]
    IN CASE op[1] = 1 -> [s.p[t] EXCEPT ![a] = b]
         [] op[1] = 2 -> [s.v[t] EXCEPT ![a] = b]
         [] op[1] = 3 -> s.p[a]
         [] op[1] = 4 -> s.v[a]
         [] op[1] = 5 -> K3Add(s.p[a], s.v[b])
         [] op[1] = 6 -> K3Sub(s.p[a], s.v[b])
         [] op[1] = 7 -> K3Sub(s.p[a], s.p[b])
         [] op[1] = 8 -> K3Add(s.v[a], s.v[b])
         [] op[1] = 9 -> K3Sub(s.v[a], s.v[b])
         [] op[1] = 10 -> K3Part(u, K3Cross(s.v[a], s.v[b]))
         [] op[1] = 11 -> K3Mul(c, s.v[a])
         [] op[1] = 12 -> K3Add(s.p[a], s.v[b])
         [] op[1] = 13 -> K3Mul(-1, s.v[a])
         [] op[1] \in {14, 15} -> <<a, b, c>>
         [] op[1] = 16 -> K3Mid(s.p[a], s.p[b])
         [] op[1] = 17 -> K3Add(s.v[a], K3Mul(c, s.v[t]))
         [] op[1] = 18 -> K3Add(s.p[t], K3Mul(c, K3Sub(s.p[a], s.p[b])))
         [] op[1] = 19 -> s.p[t]
         [] op[1] = 20 -> s.v[t]
ToPoint(c) == c \in {1, 3, 5, 6, 14, 16, 18, 19}
Whole1(n, u) == u * Sgn(n) * (Abs(n) \div u)
Held(q, point, t, u, mixed) == IF ~mixed THEN q
                               ELSE IF point THEN (IF t = 1 THEN <<q[1], Whole1(q[2], u), Whole1(q[3], u)>> ELSE q)
                               ELSE IF t = 2 THEN <<q[1], q[2], Whole1(q[3], u)>> ELSE q
KStep(s, op, u, mixed) == LET q == Held(KNew(s, op, u), ToPoint(op[1]), op[2], u, mixed)
                          IN IF ToPoint(op[1]) THEN [s EXCEPT !.p[op[2]] = q] ELSE [s EXCEPT !.v[op[2]] = q]
\* the coordinates stay whole and small enough for every kind of number
KAllowed(s, op, u) == IF op[1] = 16 /\ \E k \in 1..3 : (s.p[op[3]][k] + s.p[op[4]][k]) % 2 # 0 THEN FALSE
                   ELSE K3Max(KNew(s, op, u)) <= 1000

\* what is read back: the six of them; dot products, squared distances, sameness, triple product
KSeen(s, r) ==
    /\ r[1] = s.p /\ r[2] = s.v
    /\ r[3] = [k \in 1..9 |-> K3Dot(s.v[((k - 1) \div 3) + 1], s.v[((k - 1) % 3) + 1])]
    /\ r[4] = [k \in 1..9 |-> LET d == K3Sub(s.p[((k - 1) \div 3) + 1], s.p[((k - 1) % 3) + 1]) IN K3Dot(d, d)]
    /\ r[5] = [k \in 1..9 |-> s.p[((k - 1) \div 3) + 1] = s.p[((k - 1) % 3) + 1]]
    /\ r[6] = K3Dot(s.v[1], K3Cross(s.v[2], s.v[3]))
    /\ r[7] = [k \in 1..3 |-> K3Dot(s.v[k], s.v[k])]
RECURSIVE KRun(_, _, _, _, _, _)
KRun(s, ops, u, mixed, r, k) == IF k > Len(ops) THEN TRUE
                                ELSE LET t == KStep(s, ops[k], u, mixed) IN IF KSeen(t, r[k]) THEN KRun(t, ops, u, mixed, r, k + 1) ELSE FALSE
KScaled(u) == [p |-> [k \in 1..3 |-> K3Mul(u, KStart.p[k])], v |-> [k \in 1..3 |-> K3Mul(u, KStart.v[k])]]
KHistoryOK(ops, u, mixed, r) == Len(r) = Len(ops) /\ KRun(KScaled(u), ops, u, mixed, r, 1)

\* the algorithms of the plane on points a, b, c, d and a simple polygon, every kind in turn
FlatOK(a, b, c, d, poly, r) ==
    \A k \in 1..Len(r) :
        LET q == r[k] IN
        /\ q[1] = Orient(a, b, c) /\ q[2] = LexLess(a, b) /\ q[3] = (a = b)
        /\ q[4] = Dot(a, c, c)
        /\ LET x == q[5] IN
           IF Parallel(a, b, c, d) THEN TRUE ELSE x[1] = SegsMeet(a, b, c, d) /\ (x[1] => x[2] = LineX(a, b, c, d))
        /\ InOK(poly, a, q[6][1]) /\ InOK(poly, d, q[6][2])
        /\ q[7] = Area2(poly) /\ q[8] = Centroid(poly)
        /\ \A j \in 1..Len(q[9]) : q[9][j] = Bounds(poly, 1, Len(poly))
KindsAccepts(rec) == LET x == rec.a
                         r == rec.r
                     IN CASE rec.op = "history" -> KHistoryOK(x[1], x[2], x[3], r)
                          [] rec.op = "flat" -> FlatOK(x[1], x[2], x[3], x[4], x[5], r)
=============================================================================
