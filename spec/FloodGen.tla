---- MODULE FloodGen ----
(* every history of K operations of the fill helper over a 2 x 2 grid (and a sample of marks), with state invariants *)
EXTENDS Floods, TLC, TLCExt, IOUtils
CONSTANTS K, W, H
VARIABLES s, hist
C == FCells(W, H)
Ops == {<<F_WALL, c[1], c[2], 0, 0>> : c \in C} \cup {<<F_FILL, c[1], c[2], 0, 0>> : c \in C}
       \cup {<<F_MARK, 0, 0, W - 1, 0>>, <<F_MARK, 0, 0, W - 1, H - 1>>, <<F_MARK, 1, 0, 1, H - 1>>}
Init == s = FInit(W, H) /\ hist = << >>
Next == /\ Len(hist) < K
        /\ \E op \in Ops : s' = FStep(s, op).st /\ hist' = Append(hist, op)
Spec == Init /\ [][Next]_<<s, hist>>
\* cells of one colour other than fresh or barrier came from one connected region
VisMono == [][s.vis \subseteq s'.vis]_<<s, hist>>
Coloured == \A c \in C : s.col[c] > 0 => c \in s.vis /\ s.col[c] <= s.n
Emit == Len(hist) = K => Serialize(ToString(hist) \o "\n", IOEnv.BEH,
            [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
====
