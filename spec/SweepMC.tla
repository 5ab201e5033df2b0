------------------------------ MODULE SweepMC ------------------------------
(***************************************************************************)
(* The sweep itself as a state machine: an event queue, the status (the    *)
(* segments crossing the sweep line, bottom to top), and only neighbours   *)
(* in the status are ever intersected.  Checked for every scene of the     *)
(* scope: what was reported is always exactly the meetings up to the       *)
(* current event, and no step ever passes a meeting by.                   *)
(***************************************************************************)
EXTENDS Sweep, TLC, IOUtils
CONSTANTS W, H, N
Pts == (0..W) \X (0..H)
AllSegs == {s \in Pts \X Pts : LexLess(s[1], s[2])}
Num(s) == ((s[1][1] * (H + 1) + s[1][2]) * (W + 1) + s[2][1]) * (H + 1) + s[2][2]

VARIABLES S, queue, status, at, out
vars == <<S, queue, status, at, out>>
NOWHERE == <<0, 0, 0>>

Init == /\ \E n \in 2..N : S \in {q \in [1..n -> AllSegs] : \A k \in 1..(n - 1) : Num(q[k]) <= Num(q[k + 1])}
        /\ queue = Ends(S) /\ status = <<>> /\ at = NOWHERE /\ out = <<>>

Dir(k) == Sub(High(S[k]), Low(S[k]))
\* below one another just after passing the common point
Under(i, j) == Cr(Dir(i), Dir(j)) > 0 \/ (Cr(Dir(i), Dir(j)) = 0 /\ i < j)
RECURSIVE Sorted(_)
Sorted(K) == IF K = {} THEN <<>> ELSE LET m == CHOOSE i \in K : \A j \in K \ {i} : Under(i, j) IN <<m>> \o Sorted(K \ {m})
Below(k, P) == QCross(Low(S[k]), High(S[k]), P) > 0
Rest(K, P, lower) == SelectSeq(status, LAMBDA k : k \notin K /\ (Below(k, P) <=> lower))
Found(i, j, P) == {Q \in Isolated(S[i], S[j]) : QLess(P, Q)}

Step(P) ==
    LET U == {k \in 1..Len(S) : QIs(P, Low(S[k]))}
        inStatus == Range(status)
        L == {k \in inStatus : QIs(P, High(S[k]))}
        C == {k \in inStatus : QOnSeg(S[k][1], S[k][2], P)} \ L
        lo == Rest(L \cup C, P, TRUE)
        hi == Rest(L \cup C, P, FALSE)
        mid == Sorted(U \cup C)
        \* the new neighbours around the event
        new == IF mid = <<>> THEN (IF lo # <<>> /\ hi # <<>> THEN Found(lo[Len(lo)], hi[1], P) ELSE {})
               ELSE (IF lo # <<>> THEN Found(lo[Len(lo)], mid[1], P) ELSE {})
                    \cup (IF hi # <<>> THEN Found(mid[Len(mid)], hi[1], P) ELSE {})
        all == L \cup U \cup C
    IN  /\ out' = IF Cardinality(all) > 1 THEN Append(out, <<P, all>>) ELSE out
        /\ status' = lo \o mid \o hi
        /\ queue' = (queue \ {P}) \cup new
        /\ at' = P
        /\ UNCHANGED S
Next == queue # {} /\ Step(CHOOSE P \in queue : \A Q \in queue : Q = P \/ QLess(P, Q))
Spec == Init /\ [][Next]_vars

\* a meeting not passed yet
Ahead == {P \in Meetings(S) : at = NOWHERE \/ QLess(at, P)}
ReportedSoFar == {out[k][1] : k \in 1..Len(out)} = Meetings(S) \ Ahead
ReportsAreExact == \A k \in 1..Len(out) : out[k][2] = Through(S, out[k][1])
InOrder == \A k \in 1..(Len(out) - 1) : QLess(out[k][1], out[k + 1][1])
\* the sweep never steps over a meeting
NextIsKnown == Ahead = {} \/ \E P \in queue : \A Q \in Ahead : Q = P \/ QLess(P, Q)
StatusIsRight == at # NOWHERE => Range(status) = {k \in 1..Len(S) : ~QLess(at, QOf(Low(S[k]))) /\ QLess(at, QOf(High(S[k])))}
NoRepeats == Len(status) = Cardinality(Range(status))
\* hand the scene over for replay in the implementation
Emit == at # NOWHERE \/ Serialize(ToString(S) \o "\n", IOEnv.BEH,
            [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
