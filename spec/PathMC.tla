------------------------------- MODULE PathMC -------------------------------
(***************************************************************************)
(* Editing a polyline by cutting its vertex list, as a state machine, next *)
(* to the arc of the base curve it stands for: whatever the sequence of    *)
(* operations, the list is that arc, and the two parts of a split join up. *)
(***************************************************************************)
EXTENDS Paths, TLC, IOUtils
CONSTANTS K, Amounts, Bases
Base(n) == CASE n = 1 -> <<<<0, 0>>, <<2, 0>>, <<2, 1>>>>
             [] n = 2 -> <<<<0, 0>>, <<3, 4>>, <<3, 6>>, <<0, 6>>>>
             [] n = 3 -> <<<<0, 0>>, <<1, 0>>, <<2, 0>>, <<2, 2>>, <<0, 2>>, <<0, 1>>>>
             [] n = 4 -> <<<<1, 1>>, <<5, 4>>>>
             [] n = 5 -> <<<<0, 0>>, <<1, 0>>, <<1, 1>>, <<0, 1>>, <<0, 0>>, <<-3, 4>>>>
MCAmounts == {<<0, 1>>, <<1, 2>>, <<1, 1>>, <<4, 3>>, <<2, 1>>, <<3, 1>>, <<5, 1>>}
VARIABLES b, pts, arc, hist
vars == <<b, pts, arc, hist>>
\* vertex list: sequence of <<point, arc position on the base>>
Init == /\ \E n \in Bases : b = n
        /\ pts = [k \in 1..Len(Base(b)) |-> <<QOf(Base(b)[k]), <<ArcTo(Base(b), k), 1>>>>]
        /\ arc = <<<<0, 1>>, <<Total(Base(b)), 1>>>>
        /\ hist = <<>>
Mix(p, q, s) == \* the point at position s of the edge from p to q
    LET w == RSub(s, p[2])
        l == RSub(q[2], p[2])
        n == w[1] * l[2]
        d == w[2] * l[1]
    IN  <<QNorm(<<p[1][1] * q[1][3] * (d - n) + q[1][1] * p[1][3] * n, p[1][2] * q[1][3] * (d - n) + q[1][2] * p[1][3] * n, p[1][3] * q[1][3] * d>>), s>>
RECURSIVE DropTo(_, _)
DropTo(l, s) == IF Len(l) < 2 THEN <<>>                                  \* everything before position s goes
                ELSE IF RLe(l[2][2], s) THEN DropTo(Tail(l), s)
                ELSE IF RLe(s, l[1][2]) THEN l ELSE <<Mix(l[1], l[2], s)>> \o Tail(l)
RECURSIVE KeepTo(_, _)
KeepTo(l, s) == IF Len(l) < 2 \/ RLe(s, l[1][2]) THEN <<>>                \* everything after position s goes
                ELSE IF RLt(s, l[2][2]) THEN <<l[1], Mix(l[1], l[2], s)>>
                ELSE LET m == KeepTo(Tail(l), s) IN IF m = <<>> THEN <<l[1], l[2]>> ELSE <<l[1]>> \o m
Lo(l) == l[1][2]
Hi(l) == l[Len(l)][2]
Cut(l, op) == LET q == <<op[2], op[3]>>
              IN  IF l = <<>> THEN l
                  ELSE CASE op[1] = FRONT -> DropTo(l, RAdd(Lo(l), q))
                         [] op[1] = BACK -> KeepTo(l, RSub(Hi(l), q))
                         [] op[1] = BOTH -> LET m == DropTo(l, RAdd(Lo(l), q)) IN IF m = <<>> THEN m ELSE KeepTo(m, RSub(Hi(m), q))
                         [] op[1] = FIRST -> KeepTo(l, RAdd(Lo(l), q))
                         [] op[1] = SECOND -> DropTo(l, RAdd(Lo(l), q))
Ops == {<<c, a[1], a[2]>> : c \in 1..5, a \in Amounts}
Next == /\ Len(hist) < K /\ pts # <<>>
        /\ \E op \in Ops : /\ pts' = Cut(pts, op)
                           /\ arc' = PathStep(arc, op)
                           /\ hist' = Append(hist, op)
                           /\ UNCHANGED b
Spec == Init /\ [][Next]_vars
Pts(l) == [k \in 1..Len(l) |-> l[k][1]]
ListIsArc == IF Empty(arc) THEN pts = <<>> ELSE Pts(pts) = SubPath(Base(b), arc[1], arc[2])
Increasing == \A k \in 1..(Len(pts) - 1) : RLt(pts[k][2], pts[k + 1][2])
KeepBoth(l, f) == LET c == f[Len(f)] IN Pts(f) \o Pts(SelectSeq(l, LAMBDA x : RLt(c[2], x[2])))
\* the two parts of a split at any of the amounts join up to the whole
Rejoins == pts = <<>> \/ \A a \in Amounts :
             LET f == Cut(pts, <<FIRST, a[1], a[2]>>)
                 s == Cut(pts, <<SECOND, a[1], a[2]>>)
             IN  s # <<>> /\ f # <<>> => Squeeze(Pts(f) \o Pts(s)) = Squeeze(KeepBoth(pts, f))
\* clipping both ends does not depend on the order
Commutes == pts = <<>> \/ \A x \in Amounts, y \in Amounts :
             Cut(Cut(pts, <<FRONT, x[1], x[2]>>), <<BACK, y[1], y[2]>>) = Cut(Cut(pts, <<BACK, y[1], y[2]>>), <<FRONT, x[1], x[2]>>)
Emit == (Len(hist) = K \/ (hist # <<>> /\ pts = <<>>)) => Serialize(ToString(<<b, hist>>) \o "\n", IOEnv.BEH,
            [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
