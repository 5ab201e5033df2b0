---- MODULE WalkMC ----
(***************************************************************************)
(* The traversal as a transition system: from the cell of the start point, *)
(* cross the nearer cell limit (either one on a tie) until the end cell is *)
(* reached.  For every segment of a small grid: it terminates after        *)
(* |di| + |dj| steps, every cell it enters touches the segment, and the    *)
(* finished walk is one the acceptance condition of the checks admits.     *)
(***************************************************************************)
EXTENDS Grids, TLC
CONSTANTS NX, NY
VARIABLES a, b, walk
G == <<0, NX, 0, NY, 2>>
Pts == {<<x, y>> : x \in 0..NX, y \in 0..NY}
cur == walk[Len(walk)]
fin == CellOf(G, b)
Init == a \in Pts /\ b \in Pts /\ walk = <<CellOf(G, a)>>
Dx == b[1] - a[1]
Dy == b[2] - a[2]
\* distance (scaled) to the next limit in the direction of travel: numerator of the parameter over |D|
NumX == IF Dx > 0 THEN (cur[1] + 1) * 2 - a[1] ELSE a[1] - cur[1] * 2
NumY == IF Dy > 0 THEN (cur[2] + 1) * 2 - a[2] ELSE a[2] - cur[2] * 2
GoX == /\ cur[1] # fin[1]
       /\ cur[2] = fin[2] \/ NumX * Abs(Dy) <= NumY * Abs(Dx)
       /\ walk' = Append(walk, <<cur[1] + Sgn(Dx), cur[2]>>)
GoY == /\ cur[2] # fin[2]
       /\ cur[1] = fin[1] \/ NumY * Abs(Dx) <= NumX * Abs(Dy)
       /\ walk' = Append(walk, <<cur[1], cur[2] + Sgn(Dy)>>)
Next == (GoX \/ GoY) /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b, walk>>
Touching == CellMeets(G, a, b, cur)
Bounded == Len(walk) <= 1 + Abs(fin[1] - walk[1][1]) + Abs(fin[2] - walk[1][2])
Finished == cur = fin => VoxelOK(G, a, b, walk)
CrossedAreNear == \A c \in Cells(G) : CellCrossed(G, a, b, c) => c \in NearCells(G, a, b)
\* stuck only in the end cell
NotStuck == cur # fin => ENABLED Next
====
