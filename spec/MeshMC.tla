------------------------------- MODULE MeshMC -------------------------------
(***************************************************************************)
(* A mesh built square by square (empty, cut along either diagonal, or     *)
(* half filled), then searched with a stack from its first triangle by a   *)
(* visitor that enters each triangle once.                                 *)
(***************************************************************************)
EXTENDS Meshes, TLC, IOUtils
CONSTANTS W, H
VARIABLES cells, tris, stack, seen, log
vars == <<cells, tris, stack, seen, log>>
Id(x, y) == y * (W + 1) + x
Pts == [k \in 1..((W + 1) * (H + 1)) |-> <<4 * ((k - 1) % (W + 1)), 4 * ((k - 1) \div (W + 1))>>]
Fill(x, y, c) == CASE c = 0 -> <<>>
    [] c = 1 -> <<<<Id(x, y), Id(x + 1, y), Id(x + 1, y + 1)>>, <<Id(x, y), Id(x + 1, y + 1), Id(x, y + 1)>>>>
    [] c = 2 -> <<<<Id(x, y), Id(x + 1, y), Id(x, y + 1)>>, <<Id(x, y + 1), Id(x + 1, y), Id(x + 1, y + 1)>>>>
    [] c = 3 -> <<<<Id(x, y), Id(x + 1, y), Id(x, y + 1)>>>>
NONE == <<<<-9, -9>>>>
Init == cells = <<>> /\ tris = <<>> /\ stack = NONE /\ seen = {} /\ log = <<>>
Place == /\ Len(cells) < W * H /\ stack = NONE
         /\ \E c \in 0..3 : LET k == Len(cells) IN cells' = Append(cells, c) /\ tris' = tris \o Fill(k % W, k \div W, c)
         /\ UNCHANGED <<stack, seen, log>>
Start == /\ Len(cells) = W * H /\ tris # <<>> /\ stack = NONE
         /\ stack' = <<<<-1, 0>>>> /\ seen' = {0} /\ UNCHANGED <<cells, tris, log>>
Adj == Adjacency(tris)
\* pop a triangle, push the neighbours not yet entered, in the order of the sides
Visit == /\ stack # NONE /\ stack # <<>>
         /\ LET it == stack[Len(stack)]
                a == Adj[it[2] + 1]
                ok(s) == a[s] >= 0 /\ a[s] # it[1] /\ a[s] \notin seen /\ \A q \in 1..(s - 1) : a[q] # a[s]
                new == (IF ok(1) THEN <<<<it[2], a[1]>>>> ELSE <<>>) \o (IF ok(2) THEN <<<<it[2], a[2]>>>> ELSE <<>>) \o (IF ok(3) THEN <<<<it[2], a[3]>>>> ELSE <<>>)
            IN  /\ stack' = SubSeq(stack, 1, Len(stack) - 1) \o new
                /\ seen' = seen \cup {new[k][2] : k \in 1..Len(new)}
                /\ log' = Append(log, it)
         /\ UNCHANGED <<cells, tris>>
Next == Place \/ Start \/ Visit
Spec == Init /\ [][Next]_vars
StoredAsGiven == Stored(Pts, tris, 1) = tris
Mutual == \A k \in 1..Len(tris) : \A s \in 1..3 : Adj[k][s] >= 0 => \E q \in 1..3 : Adj[Adj[k][s] + 1][q] = k - 1
Within == stack # NONE => seen \subseteq Grow(Adj, {0})
Reaches == stack = <<>> => SearchOK(Pts, tris, 0, 0, log)
O == <<(Pts[tris[1][1] + 1][1] + Pts[tris[1][2] + 1][1] + Pts[tris[1][3] + 1][1]) \div 3, (Pts[tris[1][1] + 1][2] + Pts[tris[1][2] + 1][2] + Pts[tris[1][3] + 1][2]) \div 3>>
\* looking around from the first triangle: its corners are always seen, nothing outside its component is, and a full grid is seen whole
Looks == stack = <<>> => LET S == {i \in UNION {Range(t) : t \in Range(tris)} : Sees(Pts, tris, O, V(Pts, i))}
                         IN  /\ Range(tris[1]) \subseteq S
                             /\ (\A k \in 1..Len(cells) : cells[k] \in {1, 2}) => S = 0..(Len(Pts) - 1)
\* more triangles never hide anything
Monotone == stack = <<>> /\ Len(tris) > 1 => LET m == SubSeq(tris, 1, Len(tris) - 1)
                         IN  \A i \in UNION {Range(t) : t \in Range(m)} : Sees(Pts, m, O, V(Pts, i)) => Sees(Pts, tris, O, V(Pts, i))
Emit == stack = <<>> => Serialize(ToString(<<W, H, [k \in 1..Len(cells) |-> <<(k - 1) % W, (k - 1) \div W, cells[k]>>]>>) \o "\n", IOEnv.BEH,
            [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
