------------------------------ MODULE UnitsMC ------------------------------
(***************************************************************************)
(* Every short history of the quantities, written in two systems of units  *)
(* side by side: lengths count four times as many and times twice as many  *)
(* in the second.                                                          *)
(***************************************************************************)
EXTENDS Units, TLC, IOUtils
CONSTANTS K, Values
VARIABLES s, z, hist
vars == <<s, z, hist>>
R2 == 1..2
ASSUME \A c \in 1..24 : OpDim(c) = RegDim(c)
ASSUME ToP \cup ToV \cup ToU \cup ToL \cup ToT = 1..24
OpsOf(c) == CASE c \in {1, 2, 3, 4, 5, 10, 11, 21, 22} -> {<<c, t, a, b, 0>> : t \in R2, a \in R2, b \in R2}
              [] c = 6 -> {<<c, t, a, 0, n>> : t \in R2, a \in R2, n \in IF Values THEN {-2, 0, 3} ELSE {-2}}
              [] c = 7 -> {<<c, t, a, 0, n>> : t \in R2, a \in R2, n \in {-1, 2}}
              [] c \in {8, 9, 13, 23} -> {<<c, t, a, 0, 0>> : t \in R2, a \in R2}
              [] c = 12 -> {<<c, t, a, 0, -3>> : t \in R2, a \in R2}
              [] c = 14 -> {<<c, 1, a, b, 0>> : a \in R2, b \in 1..4}
              [] c = 15 -> {<<c, t, 1, b, 0>> : t \in R2, b \in 1..4}
              [] c = 16 -> {<<c, 1, 1, 1, 1>>, <<c, 1, 1, 1, 3>>}
              [] c = 17 -> {<<c, 1, 1, 1, 10>>, <<c, 1, 1, 1, -3>>}
              [] c = 18 -> {<<c, t, a, 0, 6>> : t \in R2, a \in R2}
              [] c = 19 -> {<<c, 1, a, b, 0>> : a \in R2, b \in R2}
              [] c = 20 -> {<<c, 1, a, 0, 0>> : a \in R2}
              [] c = 24 -> {<<c, t, a, b, 2>> : t \in R2, a \in R2, b \in R2}
Ops == UNION {OpsOf(c) : c \in 1..24}
\* the same operation as it is written in the second system
Again(op) == CASE op[1] \in {17, 18} -> [op EXCEPT ![5] = 4 * op[5]]
               [] op[1] = 16 -> [op EXCEPT ![5] = 2 * op[5]]
               [] OTHER -> op
Init == s = UStart /\ z = ScaledBy(4, 2, UStart) /\ hist = <<>>
Next == Len(hist) < K /\ \E op \in Ops : /\ UAllowed(s, op, 150)
                                         /\ s' = UStep(s, op) /\ z' = UStep(z, Again(op)) /\ hist' = Append(hist, op)
Spec == Init /\ [][Next]_vars
\* the answers do not depend on the units
Homogeneous == z = ScaledBy(4, 2, s)
Allowed == \A op \in Ops : UWhole(s, op) => UWhole(z, Again(op))
Forward == s.t > 0
\* Lagrange, and the projection splits a vector into parts at right angles
Lagrange == LET d == Dt(s.v[1], s.v[2])
                x == Cr(s.v[1], s.v[2])
            IN d * d + x * x = Dt(s.v[1], s.v[1]) * Dt(s.v[2], s.v[2])
Onto == \A a, b \in R2 : UWhole(s, <<22, 1, a, b, 0>>) =>
            LET w == Sub(UStep(s, <<22, 1, a, b, 0>>).v[1], s.v[a]) IN Cr(w, s.v[b]) = 0 /\ Dt(Sub(s.v[a], w), s.v[b]) = 0
Middle == \A a, b \in R2 : UWhole(s, <<21, 1, a, b, 0>>) => LET m == UStep(s, <<21, 1, a, b, 0>>).p[1] IN Sub(m, s.p[a]) = Sub(s.p[b], m)
Emit == Len(hist) = K => Serialize(ToString(hist) \o "\n", IOEnv.BEH,
            [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
