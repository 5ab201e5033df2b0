------------------------------- MODULE Cover -------------------------------
(***************************************************************************)
(* A set of collinear segments kept as disjoint intervals.  Positions on   *)
(* the common line are 0..N; the state is the set of unit cells covered    *)
(* (cell k is [k, k+1]).  Union adds the cells of a segment, difference    *)
(* takes them away; what is stored is the set of maximal runs of covered   *)
(* cells, in either direction each.                                        *)
(***************************************************************************)
EXTENDS Geo
C_UNION == 1
C_DIFF == 2
Cells(a, b) == Min2(a, b)..(Max2(a, b) - 1)
CStep(cov, op) == CASE op[1] = C_UNION -> cov \cup Cells(op[2], op[3])
                    [] op[1] = C_DIFF -> cov \ Cells(op[2], op[3])
                    [] OTHER -> cov
\* maximal runs of covered cells, as <<lower, upper>>
Runs(cov) == LET from == {k \in cov : (k - 1) \notin cov}
                 to == {k + 1 : k \in {m \in cov : (m + 1) \notin cov}}
             IN  {<<s, SetMin({e \in to : e > s})>> : s \in from}
RECURSIVE Covers(_, _)
Covers(cov, ops) == IF ops = << >> THEN << >> ELSE LET n == CStep(cov, ops[1]) IN <<n>> \o Covers(n, Tail(ops))
Sorted(p) == <<Min2(p[1], p[2]), Max2(p[1], p[2])>>
\* the stored pieces, in the order they are stored: from the lower end of the line upwards
Stored(cov, q) == /\ Len(q) = Cardinality(Runs(cov))
                  /\ {Sorted(q[k]) : k \in 1..Len(q)} = Runs(cov)
                  /\ \A k \in 1..(Len(q) - 1) : Sorted(q[k])[2] < Sorted(q[k + 1])[1]
\* pieces a query segment touches (shares at least a point with)
TouchedBy(cov, a, b) == {r \in Runs(cov) : r[1] <= Max2(a, b) /\ Min2(a, b) <= r[2]}
CoverAccepts(rec) ==
    CASE rec.op = "cover" -> LET cs == Covers({}, rec.a) IN Len(rec.r) = Len(cs) /\ \A k \in 1..Len(cs) : Stored(cs[k], rec.r[k])
      [] rec.op = "touch" -> LET cs == Covers({}, rec.a[1])       \* pieces found equivalent to a query
                                 q == rec.a[2]
                             IN  {Sorted(rec.r[k]) : k \in 1..Len(rec.r)} = TouchedBy(cs[Len(cs)], q[1], q[2])
      [] rec.op = "precedes" -> rec.r = (Max2(rec.a[1], rec.a[2]) < Min2(rec.a[3], rec.a[4]))
      [] OTHER -> FALSE
=============================================================================
