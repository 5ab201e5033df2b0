---- MODULE CoverMC ----
(* all histories of K operations on N positions; the stored runs always are a partition of exactly what was covered *)
EXTENDS Cover, TLC, TLCExt, IOUtils
CONSTANTS K, N
VARIABLES cov, hist, pts
Ops == {<<k, a, b>> : k \in 1..2, a \in 0..N, b \in 0..N} \ {<<1, a, a>> : a \in 0..N}
Init == cov = {} /\ hist = << >> /\ pts = {}
\* half positions 0, 1, .. 2N stand for the points of the line: even = lattice points, odd = inside of cells
Points(a, b) == (2 * Min2(a, b))..(2 * Max2(a, b))
Open(a, b) == (2 * Min2(a, b) + 1)..(2 * Max2(a, b) - 1)
Closure(S) == S \cup {x \in 0..(2 * N) : x % 2 = 0 /\ ((x - 1) \in S \/ (x + 1) \in S)}
Next == /\ Len(hist) < K
        /\ \E op \in Ops : /\ hist = << >> => op[1] = C_UNION
                           /\ op[2] = op[3] => Len(hist) = 1    \* an empty subtrahend: once is enough
                           /\ cov' = CStep(cov, op) /\ hist' = Append(hist, op)
                           /\ pts' = IF op[1] = C_UNION THEN pts \cup Points(op[2], op[3]) ELSE IF op[2] = op[3] THEN pts ELSE Closure(pts \ Points(op[2], op[3]) )
Spec == Init /\ [][Next]_<<cov, hist, pts>>
\* the runs cover exactly the points the (regularised) set operations on the line define
Exact == pts = UNION {Points(r[1], r[2]) : r \in Runs(cov)}
Disjoint == \A r, t \in Runs(cov) : r # t => Points(r[1], r[2]) \cap Points(t[1], t[2]) = {}
Found == \A a, b \in 0..N : a < b => TouchedBy(cov, a, b) = {r \in Runs(cov) : Points(r[1], r[2]) \cap Points(a, b) # {}}
Emit == Len(hist) = K => Serialize(ToString(hist) \o "\n", IOEnv.BEH,
            [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
====
