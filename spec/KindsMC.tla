------------------------------ MODULE KindsMC ------------------------------
(***************************************************************************)
(* Every short history of the six points and vectors.                      *)
(***************************************************************************)
EXTENDS Kinds, TLC, IOUtils
CONSTANTS K, All
VARIABLES s, hist
vars == <<s, hist>>
T == 1..3
OpsOf(c) == CASE c \in {1, 2} -> {<<c, t, a, 5, 0>> : t \in T, a \in T}
              [] c \in {3, 4, 13} -> {<<c, t, a, 0, 0>> : t \in T, a \in T}
              [] c = 11 -> {<<c, t, a, 0, -2>> : t \in T, a \in T}
              [] c \in {14, 15} -> {<<c, t, 4, -3, 2>> : t \in T}
              [] c = 17 -> {<<c, t, a, 0, 2>> : t \in T, a \in T}
              [] c = 18 -> {<<c, t, a, b, 2>> : t \in T, a \in T, b \in IF All THEN T ELSE {1, 3}}
              [] c \in {19, 20} -> {<<c, t, 0, 0, 0>> : t \in T}
              [] OTHER -> {<<c, t, a, b, 0>> : t \in T, a \in T, b \in T}
Ops == UNION {OpsOf(c) : c \in 1..20}
Init == s = KStart /\ hist = <<>>
Next == Len(hist) < K /\ \E op \in Ops : KAllowed(s, op, 1) /\ s' = KStep(s, op, 1, FALSE) /\ hist' = Append(hist, op)
Spec == Init /\ [][Next]_vars
\* point - point + point is back; a cross product is at right angles; nothing but the target changes
Back == \A a, b \in T : K3Add(s.p[b], K3Sub(s.p[a], s.p[b])) = s.p[a]
Right == \A a, b \in T : LET n == K3Cross(s.v[a], s.v[b]) IN K3Dot(n, s.v[a]) = 0 /\ K3Dot(n, s.v[b]) = 0
Anti == \A a, b \in T : K3Cross(s.v[a], s.v[b]) = K3Mul(-1, K3Cross(s.v[b], s.v[a]))
\* Lagrange: |a x b|^2 + (a.b)^2 = |a|^2 |b|^2
Lagrange == \A a, b \in T : LET n == K3Cross(s.v[a], s.v[b])
                                d == K3Dot(s.v[a], s.v[b])
                            IN K3Dot(n, n) + d * d = K3Dot(s.v[a], s.v[a]) * K3Dot(s.v[b], s.v[b])
Middle == \A a, b \in T : KAllowed(s, <<16, 1, a, b, 0>>, 1) => LET m == K3Mid(s.p[a], s.p[b]) IN K3Sub(m, s.p[a]) = K3Sub(s.p[b], m)
Emit == Len(hist) = K => Serialize(ToString(hist) \o "\n", IOEnv.BEH,
            [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
