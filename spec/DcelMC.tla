---- MODULE DcelMC ----
(* every history of K operations over P vertices; every sequence reported stays a partition of the edges *)
EXTENDS Dcel, TLC, TLCExt, IOUtils
CONSTANTS K, P
VARIABLES s, hist
V == 1..P
Ops == {<<D_ADD, a, b>> : a \in V, b \in V} \cup {<<k, 0, 0>> : k \in 1..5}
Init == s = DInit /\ hist = << >>
Next == /\ Len(hist) < K
        /\ \E op \in Ops : /\ op[1] = D_ADD => CanAdd(s.E, op[2], op[3])
                           /\ hist = << >> => op[1] = D_ADD
                           /\ hist # << >> /\ op[1] # D_ADD => hist[Len(hist)][1] # op[1]
                           /\ s' = DStep(s, op) /\ hist' = Append(hist, op)
Spec == Init /\ [][Next]_<<s, hist>>
EdgesOf(q) == {<<q[k], q[k + 1]>> : k \in 1..(Len(q) - 1)}
\* joined sequences use every edge exactly once
Partition == LET cs == Chains(s.E)
                 rs == Rings(s.E)
                 all == UNION {EdgesOf(q) : q \in cs} \cup UNION {EdgesOf(q) \cup {<<q[Len(q)], q[1]>>} : q \in rs}
             IN  /\ all = s.E
                 /\ \A q, t \in cs \cup rs : q # t => {q[k] : k \in 1..Len(q)} \cap {t[k] : k \in 1..Len(t)} = {}
\* a chain goes on until nothing follows
Maximal == \A q \in Chains(s.E) : q[1] \notin Targets(s.E) /\ q[Len(q)] \notin Sources(s.E)
Emit == Len(hist) = K => Serialize(ToString(hist) \o "\n", IOEnv.BEH,
            [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
====
