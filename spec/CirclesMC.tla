---- MODULE CirclesMC ----
(* a disc of radius r moves in unit steps past a segment (all coordinates are in quarter units of an elementary step):
   the continuous first-contact predicate of the specification against what the sampled motion meets *)
EXTENDS Circles, TLC
CONSTANTS M, R, Steps
VARIABLES c, v, a, b, k, touched, last, rising
vars == <<c, v, a, b, k, touched, last, rising>>
Pt == {<<x, y>> : x \in -M..M, y \in -M..M}
Vel == {<<x, y>> : x \in -2..2, y \in -2..2} \ {<<0, 0>>}
Init == /\ a = <<0, 0>> /\ b \in {p \in Pt : p[1] >= 0 /\ p[2] >= 0} /\ v \in Vel /\ c \in {<<x, y>> : x \in (-2 * M)..(2 * M), y \in (-2 * M)..(2 * M)}
        /\ k = 0 /\ touched = LE(PSD2(c, a, b), R * R) /\ last = PSD2(c, a, b) /\ rising = FALSE
Next == /\ k < Steps /\ k' = k + 1 /\ c' = Add(c, v) /\ UNCHANGED <<v, a, b>>
        /\ LET d == PSD2(Add(c, v), a, b) IN touched' = (touched \/ LE(d, R * R)) /\ last' = d /\ rising' = (RCmp(d, last) > 0)
Spec == Init /\ [][Next]_vars
Start == <<c[1] - k * v[1], c[2] - k * v[2]>>
m2 == RaySegD2(Start, v, a, b, 32)
Sound == touched => LE(m2, R * R)
\* nothing met at any step: the continuous motion stays out of the disc shrunk by half a step (|v| <= 3)
Complete == k = Steps /\ ~touched /\ 2 * R > 3 => RCmp(m2, RNorm((2 * R - 3) * (2 * R - 3), 4)) >= 0
Unimodal == [][rising => rising' \/ last' = last]_vars
EndsOK == k = Steps => rising
\* once the disc has gone by it has met the set within the steps taken or never
SegPrefix == LET w == SSD2(Start, c, a, b) IN touched => LE(w, R * R)
\* crossings of the boundary circle separate the inside of the disc from its outside
Cross1 == k = 0 /\ a # b =>
    LET x == Crossings(a, b, c, R)
        ina == D2(a, c) < R * R
        inb == D2(b, c) < R * R
        oa == D2(a, c) > R * R
        ob == D2(b, c) > R * R
    IN  /\ (ina /\ ob) => ~x[1][1] /\ x[2][1]
        /\ (oa /\ inb) => x[1][1] /\ ~x[2][1]
        /\ (ina /\ inb) => ~x[1][1] /\ ~x[2][1]
        /\ (oa /\ ob) => IF LT(PSD2(c, a, b), R * R) THEN x[1][1] /\ x[2][1] /\ x[1] # x[2]
                          ELSE IF EQ(PSD2(c, a, b), R * R) THEN x[1][1] /\ x[2][1]
                          ELSE x = << >> \/ (~x[1][1] /\ ~x[2][1])
Circ == k = 0 => \A s \in 1..4 : LET st == CircleState(D2(c, b), R, s)
                                 IN st = CircleState(D2(b, c), s, R)
                                    \* a disc inside the other contains its centre
                                    /\ (st = 1 => D2(c, b) < Max2(R, s) * Max2(R, s))
                                    \* c + t v from the centre of one to the other passes the other's rim iff not nested
                                    /\ (st = 0 <=> D2(c, b) > R * R + 2 * R * s + s * s)
====
