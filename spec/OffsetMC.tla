------------------------------ MODULE OffsetMC ------------------------------
(***************************************************************************)
(* Every polyline of up to Edges Pythagorean or axis-parallel steps is     *)
(* built step by step, and its copy with it: the machine keeps the line of *)
(* the last edge of the copy and meets it with the next one.  The copy so  *)
(* built is the one the specification asks for, is the only one near it,   *)
(* is the closed form, and is the mirror of the copy of the reverse.       *)
(***************************************************************************)
EXTENDS Offsets, IOUtils, TLC
CONSTANTS Edges, Emitting

Dirs == {<<1, 0, 1>>, <<0, 1, 1>>, <<-1, 0, 1>>, <<0, -1, 1>>, <<3, 4, 5>>, <<-4, 3, 5>>, <<4, -3, 5>>}
Steps == {<<m * s[1], m * s[2], m * s[3]>> : m \in {1, 3}, s \in Dirs}
Dist == {<<1, 1>>, <<5, 2>>, <<3, 1>>}

VARIABLES p, lens, side, d, copy
vars == <<p, lens, side, d, copy>>
Init == /\ p = <<<<0, 0>>>> /\ lens = <<>> /\ side \in {1, -1} /\ d \in Dist /\ copy = <<>>

\* the line a x + b y = c (over the common scale q) of the edge moved sideways: normal (-v2, v1)
Moved(a, b, l) == LET v == Sub(b, a) IN <<-v[2] * d[2], v[1] * d[2], d[2] * (v[1] * a[2] - v[2] * a[1]) + side * d[1] * l>>
MeetOf(g, h) == LET den == g[1] * h[2] - g[2] * h[1]
                IN  QNorm(IF den > 0 THEN <<g[3] * h[2] - g[2] * h[3], g[1] * h[3] - g[3] * h[1], den>>
                          ELSE <<g[2] * h[3] - g[3] * h[2], g[3] * h[1] - g[1] * h[3], -den>>)
Extend(s) == LET n == Len(p)
                 a == p[n]
                 b == Add(a, <<s[1], s[2]>>)
             IN  /\ IF n = 1 THEN TRUE ELSE ~UTurn(Append(p, b), n)
                 /\ p' = Append(p, b)
                 /\ lens' = Append(lens, s[3])
                 /\ copy' = LET e == EndAt(a, b, b, s[3], side, d)
                            IN  IF n = 1 THEN <<EndAt(a, b, a, s[3], side, d), e>>
                                ELSE LET c == IF Cross(p[n - 1], a, b) = 0 THEN EndAt(a, b, a, s[3], side, d)
                                              ELSE MeetOf(Moved(p[n - 1], a, lens[n - 1]), Moved(a, b, s[3]))
                                     IN  Append(Append(SubSeq(copy, 1, n - 1), c), e)
                 /\ UNCHANGED <<side, d>>
Next == Len(p) <= Edges /\ \E s \in Steps : Extend(s)
Spec == Init /\ [][Next]_vars

Built == Len(p) > 1 => OffsetOK(p, lens, side, d, copy) /\ copy = Offset(p, lens, side, d)
Nudges == {<<0, 1>>, <<1, 0>>, <<1, 1>>, <<-1, 0>>, <<0, -1>>}
Unique == Len(p) > 1 => \A k \in 1..Len(p), m \in Nudges :
             ~OffsetOK(p, lens, side, d, [copy EXCEPT ![k] = QNorm(<<@[1] + m[1], @[2] + m[2], @[3]>>)])
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
Reversed == Len(p) > 1 => OffsetOK(Rev(p), Rev(lens), -side, d, Rev(copy))
\* nothing is cut off when every corner keeps: the untrimmed curve is the copy
Trimless == Len(p) > 1 /\ (\A k \in 2..(Len(p) - 1) : Keeps(p[k - 1], p[k], p[k + 1], lens[k - 1], lens[k], side, d)) => Untrimmed(p, lens, side, d, 1) = copy
Emit == Emitting /\ Len(p) = Edges + 1 => Serialize(ToString(<<side, d[1], d[2]>> \o [k \in 1..(2 * Len(p)) |-> p[(k + 1) \div 2][2 - (k % 2)]]) \o "\n", IOEnv.BEH,
            [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
