---- MODULE BspMC ----
(***************************************************************************)
(* Painting with a binary space partition, over every set of N segments of *)
(* a small grid, every viewpoint, and every choice of splitting piece at   *)
(* every node: each line separates, so the pieces come out covering the    *)
(* input exactly and far to near.                                          *)
(***************************************************************************)
EXTENDS Bsp, TLC
CONSTANTS N, M
VARIABLES segs, view, todo, out
vars == <<segs, view, todo, out>>
G == (0..M) \X (0..M)
Directed == {<<a, b>> \in G \X G : a # b}
Key(s) == <<s[1][1], s[1][2], s[2][1], s[2][2]>>
RECURSIVE LexK(_, _, _)
LexK(p, q, k) == IF k > 4 THEN TRUE ELSE IF p[k] = q[k] THEN LexK(p, q, k + 1) ELSE p[k] < q[k]
Init == /\ segs \in [1..N -> Directed]
        /\ \A k \in 1..(N - 1) : LexK(Key(segs[k]), Key(segs[k + 1]), 1)
        /\ view \in {<<x, y>> : x \in {-1, 1}, y \in {-2, 0, 1}}
        /\ todo = <<[k |-> "node", ps |-> [i \in 1..N |-> Piece(segs[i])]]>>
        /\ out = << >>
Node(ps) == [k |-> "node", ps |-> ps]
Flush(ps) == [k |-> "flush", ps |-> ps]
Step == /\ todo # << >>
        /\ LET top == Head(todo)
               rest == Tail(todo)
           IN  IF top.k = "flush" THEN out' = out \o [i \in 1..Len(top.ps) |-> top.ps[i].pc] /\ todo' = rest /\ UNCHANGED <<segs, view>>
               ELSE IF top.ps = << >> THEN todo' = rest /\ UNCHANGED <<segs, view, out>>
               ELSE \E x \in Range(top.ps) :
                    LET t == x.on
                        v == Orient(t[1], t[2], view)
                        far == IF v >= 0 THEN -1 ELSE 1
                    IN  /\ todo' = <<Node(Take(t, top.ps, far)), Flush(Take(t, top.ps, 0)), Node(Take(t, top.ps, -far))>> \o rest
                        /\ UNCHANGED <<segs, view, out>>
Spec == Init /\ [][Step]_vars
Painted == todo = << >> => PaintOK(segs, view, out) /\ Cover(segs, out)
====
