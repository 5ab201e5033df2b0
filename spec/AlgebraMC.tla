----------------------------- MODULE AlgebraMC -----------------------------
(* The laws of the algebra the code is compared with, over all small matrices and vectors. *)
EXTENDS Algebra
CONSTANTS B, BV
VARIABLES a, b, u
vars == <<a, b, u>>
N2 == [1..2 -> [1..2 -> -B..B]]
V3 == [1..3 -> -BV..BV]
ToSeq2(m) == <<<<m[1][1], m[1][2]>>, <<m[2][1], m[2][2]>>>>
ToSeq3(v) == <<v[1], v[2], v[3]>>
Init == a \in {ToSeq2(m) : m \in N2} /\ b \in {ToSeq2(m) : m \in N2} /\ u = <<>>
\* grow three rows of a 3x3 matrix one by one from the same start
Next == Len(u) < 3 /\ a = <<<<0, 0>>, <<0, 0>>>> /\ b = a /\ (\E v \in V3 : u' = Append(u, ToSeq3(v))) /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_vars
Id(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]
Scaled(m, s) == [i \in 1..Len(m) |-> [j \in 1..Len(m) |-> s * m[i][j]]]
Two == /\ DetN(MulN(a, b)) = DetN(a) * DetN(b)
       /\ TraceN(MulN(a, b)) = TraceN(MulN(b, a))
       /\ TransN(MulN(a, b)) = MulN(TransN(b), TransN(a))
       /\ MulN(a, AdjN(a)) = Scaled(Id(2), DetN(a))
       /\ DetN(TransN(a)) = DetN(a)
       /\ DetN(KronN(a, b)) = DetN(a) * DetN(a) * DetN(b) * DetN(b)
       /\ TraceN(KronN(a, b)) = TraceN(a) * TraceN(b)
       /\ ApplyN(MulN(a, b), b[1]) = ApplyN(a, ApplyN(b, b[1]))
Flat(m) == m[1] \o m[2] \o m[3]
Three == Len(u) = 3 =>
       /\ DetN(u) = DotN(u[1], Cross3(u[2], u[3]))
       /\ DetN(u) = Det3(Flat(u)) /\ Flat(AdjN(u)) = Adj3(Flat(u)) /\ Flat(TransN(u)) = Trans3(Flat(u))
       /\ MulN(u, AdjN(u)) = Scaled(Id(3), DetN(u)) /\ MulN(AdjN(u), u) = Scaled(Id(3), DetN(u))
       /\ Flat(MulN(u, u)) = MatMul(Flat(u), Flat(u)) /\ ApplyN(u, u[1]) = MatVec(Flat(u), u[1])
Pair == Len(u) = 2 =>
       /\ DotN(u[1], Cross3(u[1], u[2])) = 0 /\ DotN(u[2], Cross3(u[1], u[2])) = 0
       /\ DotN(Cross3(u[1], u[2]), Cross3(u[1], u[2])) = DotN(u[1], u[1]) * DotN(u[2], u[2]) - DotN(u[1], u[2]) * DotN(u[1], u[2])
       /\ Cross3(u[2], u[1]) = [i \in 1..3 |-> -Cross3(u[1], u[2])[i]]
=============================================================================
