------------------------------- MODULE RelMC -------------------------------
(***************************************************************************)
(* Drawing a ring edge by edge on a small grid, keeping track of the       *)
(* contacts made so far, as a state machine.  The running tally must agree *)
(* with the definition of a simple ring, with the winding numbers of the   *)
(* plane around the ring, and with the self contacts of its outline.       *)
(* Every finished drawing is emitted and replayed into the code.           *)
(***************************************************************************)
EXTENDS PolyRel, TLC, IOUtils
CONSTANTS W, H, N
VARIABLES ring, hits, done
vars == <<ring, hits, done>>
Grid == {<<x, y>> : x \in 0..W, y \in 0..H}
Init == ring = <<<<0, 0>>>> /\ hits = 0 /\ done = FALSE
\* contacts of the new edge a -> b with the outline l so far, away from the joint at a
RECURSIVE Contacts(_, _, _, _)
Contacts(l, a, b, k) == IF k >= Len(l) THEN 0
    ELSE (IF IF k = Len(l) - 1 THEN SegsOverlap(l[k], l[k + 1], a, b) ELSE SegsMeet(l[k], l[k + 1], a, b) THEN 1 ELSE 0) + Contacts(l, a, b, k + 1)
Draw(p) == /\ p # ring[Len(ring)]
           /\ ring' = Append(ring, p)
           /\ hits' = hits + Contacts(ring, ring[Len(ring)], p, 1)
           /\ UNCHANGED done
\* closing edge: it may touch the first edge at its joint only
Close == /\ Len(ring) >= 3 /\ ring[Len(ring)] # ring[1]
         /\ done' = TRUE
         /\ LET a == ring[Len(ring)]
                b == ring[1]
                all == Contacts(ring, a, b, 1)
                first == IF SegsMeet(ring[1], ring[2], a, b) THEN 1 ELSE 0
                fold == IF SegsOverlap(ring[1], ring[2], a, b) THEN 1 ELSE 0
            IN  hits' = hits + all - (IF Len(ring) = 3 /\ FALSE THEN 0 ELSE first) + fold
         /\ UNCHANGED ring
Next == ~done /\ ((Len(ring) < N /\ \E p \in Grid : Draw(p)) \/ Close)
Spec == Init /\ [][Next]_vars
Tally == ~done => hits = Len(SelfHits(ring, 1, 2))
Decides == done => (SimpleRing(ring) <=> hits = 0)
\* a simple ring winds exactly once around its inside, nowhere around its outside; turning it round or starting elsewhere changes nothing
Winds == done /\ hits = 0 => \A p \in Grid : OnBorder(ring, p) \/ Winding(ring, p) \in {0, Sgn(Area2(ring))}
Rotated == done /\ Len(ring) = N => LET m == Len(ring) IN SimpleRing([k \in 1..m |-> ring[(k % m) + 1]]) = SimpleRing(ring) /\ SimpleRing([k \in 1..m |-> ring[m + 1 - k]]) = SimpleRing(ring)
\* a simple ring lies inside itself, and so does every diagonal that is inside, whose pieces are all of it
SelfInside == done /\ hits = 0 => RingInside(ring, ring)
Diagonals == done /\ hits = 0 /\ Len(ring) > 3 => \E i, j \in 1..Len(ring) : i < j /\ ~NextTo(Len(ring), i, j) /\ SegInside(ring[i], ring[j], ring)
Emit == done => Serialize(ToString(ring) \o "\n", IOEnv.BEH,
            [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
