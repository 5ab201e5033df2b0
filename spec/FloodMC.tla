---- MODULE FloodMC ----
(***************************************************************************)
(* The scan-line fill of the library as a transition system over a stack   *)
(* of seeds: it recolours exactly the 4-connected region of its seed, for  *)
(* every barrier pattern and seed of a small grid, in every stack order.   *)
(***************************************************************************)
EXTENDS Floods, TLC
CONSTANTS W, H
VARIABLES walls, seed, done, stack
vars == <<walls, seed, done, stack>>
Free == FCells(W, H) \ walls
Init == /\ walls \in SUBSET FCells(W, H)
        /\ seed \in FCells(W, H) \ walls
        /\ done = {} /\ stack = {seed}
\* the maximal vertical run of unfilled free cells through c
RECURSIVE Up(_), Down(_)
Up(c) == IF c \in Free \ done THEN {c} \cup Up(<<c[1], c[2] + 1>>) ELSE {}
Down(c) == IF c \in Free \ done THEN {c} \cup Down(<<c[1], c[2] - 1>>) ELSE {}
Run(c) == Up(c) \cup Down(c)
\* one seed per run of unfilled cells in each neighbouring column
Heads(S, dx) == LET N == {<<c[1] + dx, c[2]>> : c \in S} \cap (Free \ done)
                IN {c \in N : <<c[1], c[2] - 1>> \notin N}
Pop == \E c \in stack : /\ done' = done \cup Run(c)
                        /\ stack' = (stack \ {c}) \cup Heads(Run(c), -1) \cup Heads(Run(c), 1)
                        /\ UNCHANGED <<walls, seed>>
Spec == Init /\ [][Pop]_vars
Comp == Reach({seed}, Free)
Within == done \subseteq Comp
Complete == stack = {} => done = Comp
\* the history view used by the checks agrees with the algorithm
Agrees == stack = {} => LET s == FStep([FInit(W, H) EXCEPT !.col = [c \in FCells(W, H) |-> IF c \in walls THEN WALL ELSE 0]], <<F_FILL, seed[1], seed[2], 0, 0>>)
                        IN s.seen = done /\ s.ok
====
