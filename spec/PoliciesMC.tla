---- MODULE PoliciesMC ----
(* coherence of every policy over all triples of small numbers and all tolerances below one *)
EXTENDS Policies, TLC
CONSTANT N
VARIABLES p, c, u, v, w
D == -N..N
Init == p \in {DIRECT, ABSOLUTE, FRACTION, RELATIVE} /\ c \in {0, 1, 4, 8, 16, 24, 63} /\ u \in D /\ v = 0 /\ w = 0
Next == v = 0 /\ w = 0 /\ v' \in D /\ w' \in D /\ UNCHANGED <<p, c, u>>
Spec == Init /\ [][Next]_<<p, c, u, v, w>>
E(a, b) == Eq(p, c, c, a, b)
L(a, b) == Lt(p, c, c, a, b)
G(a, b) == Gt(p, c, c, a, b)
Away == p = FRACTION => u * v * w # 0       \* the fraction policy switches to its absolute tolerance at zero
Trichotomy == (IF E(u, v) THEN 1 ELSE 0) + (IF L(u, v) THEN 1 ELSE 0) + (IF G(u, v) THEN 1 ELSE 0) = 1
OrEqual == (Le(p, c, c, u, v) <=> ~G(u, v)) /\ (Ge(p, c, c, u, v) <=> ~L(u, v))
Symmetric == (E(u, v) <=> E(v, u)) /\ (L(u, v) <=> G(v, u)) /\ E(u, u)
Transitive == Away /\ L(u, v) /\ L(v, w) => L(u, w)
\* numbers between two equal ones are equal to both
Interval == Away /\ u <= v /\ v <= w /\ E(u, w) => E(u, v) /\ E(v, w)
\* less stays less when the numbers move apart
Monotone == Away /\ w <= u /\ L(u, v) => L(w, v)
ScaleFree == p = FRACTION /\ u # 0 /\ v # 0 => (E(u, v) <=> E(2 * u, 2 * v))
Exact == c = 0 => (E(u, v) <=> u = v)
====
