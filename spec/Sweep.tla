------------------------------- MODULE Sweep -------------------------------
(***************************************************************************)
(* C16: the plane sweep.  Segments are pairs of distinct points; segment k *)
(* is named k.  What the sweep must report is a function of the scene:     *)
(* the places where two or more segments meet and where they touch in one  *)
(* point or one of them ends, in lexicographic order, each once, with      *)
(* exactly the segments that contain the place.                            *)
(***************************************************************************)
EXTENDS Segments

QLess(P, Q) == P[1] * Q[3] < Q[1] * P[3] \/ (P[1] * Q[3] = Q[1] * P[3] /\ P[2] * Q[3] < Q[2] * P[3])
Low(s)  == IF LexLess(s[1], s[2]) THEN s[1] ELSE s[2]
High(s) == IF LexLess(s[1], s[2]) THEN s[2] ELSE s[1]
Through(S, P) == {k \in 1..Len(S) : QOnSeg(S[k][1], S[k][2], P)}
Ends(S) == {QOf(S[k][e]) : k \in 1..Len(S), e \in 1..2}
\* isolated meeting point of a pair, if it has one
Isolated(s, t) == IF SegsMeet(s[1], s[2], t[1], t[2]) /\ ~SegsOverlap(s[1], s[2], t[1], t[2])
                  THEN {MeetPoint(s[1], s[2], t[1], t[2])} ELSE {}
Isolateds(S) == UNION {Isolated(S[ij[1]], S[ij[2]]) : ij \in {q \in (1..Len(S)) \X (1..Len(S)) : q[1] < q[2]}}
Meetings(S) == {P \in Ends(S) \cup Isolateds(S) : Cardinality(Through(S, P)) >= 2}

\* reply: sequence of <<point, set of segments as a sequence>>
SweepOK(S, r) ==
    LET M == Meetings(S)
    IN  /\ Len(r) = Cardinality(M)
        /\ {r[k][1] : k \in 1..Len(r)} = M
        /\ \A k \in 1..Len(r) : /\ Len(r[k][2]) = Cardinality(Through(S, r[k][1]))
                                /\ Range(r[k][2]) = Through(S, r[k][1])
        /\ \A k \in 1..(Len(r) - 1) : QLess(r[k][1], r[k + 1][1])
SweepAccepts(rec) == SweepOK(rec.a, rec.r)
=============================================================================
