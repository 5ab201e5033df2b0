------------------------------- MODULE FramesMC -------------------------------
(* all histories of a given depth on four registers; the polar view determines the point *)
EXTENDS Frames, IOUtils, TLC
CONSTANTS Depth, Emitting
Pts == <<<<3, 4, 5>>, <<-4, 3, 5>>, <<0, -5, 5>>>>
VARIABLES val, hist
Init == val = Start /\ hist = <<>>
Ops == {<<F_SET, g, k>> : g \in Regs, k \in 2..Len(Pts)} \cup {<<o, g, h>> : o \in {F_ASSIGN, F_MAKE}, g \in Regs, h \in Regs}
Proper(op) == ~(op[1] = F_MAKE /\ op[2] = op[3])
Next == Len(hist) < Depth /\ \E op \in Ops : Proper(op) /\ val' = After(val, op) /\ hist' = Append(hist, op)
Spec == Init /\ [][Next]_<<val, hist>>
Typed == val \in [Regs -> 1..Len(Pts)]
Replayed == val = State(hist, Len(hist))
\* the last write to a register, followed through its source, decides its value
RECURSIVE Trace(_, _)
Trace(g, n) == IF n = 0 THEN 1 ELSE IF hist[n][2] # g THEN Trace(g, n - 1) ELSE IF hist[n][1] = F_SET THEN hist[n][3] ELSE Trace(hist[n][3], n - 1)
Traced == \A g \in Regs : val[g] = Trace(g, Len(hist))
\* views identify points
Cart(p) == <<<<p[1], 1>>, <<p[2], 1>>>>
Polar(p) == <<<<p[3], 1>>, <<RNorm(p[1], p[3]), RNorm(p[2], p[3]), TRUE>>>>
ASSUME Faithful == \A i, j \in 1..Len(Pts) : PolarOK(Pts[i], Polar(Pts[j])) <=> i = j
ASSUME RoundTrip == \A i \in 1..Len(Pts) : LET q == Polar(Pts[i]) IN <<RNorm(q[1][1] * q[2][1][1], q[2][1][2]), RNorm(q[1][1] * q[2][2][1], q[2][2][2])>> = Cart(Pts[i])
Emit == Emitting /\ Len(hist) = Depth => Serialize(ToString([k \in 1..(3 * Depth) |-> hist[(k + 2) \div 3][1 + ((k - 1) % 3)]]) \o "\n", IOEnv.BEH,
            [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
