------------------------------ MODULE Tagged -------------------------------
(***************************************************************************)
(* C31: tagged quantities, numbers with a name for a type.  Four registers *)
(* hold amounts in units of 1/16: 1 a tagged integer, 2 and 3 tagged       *)
(* reals of the same tag, 4 a plain real.  Operations <<code, to, from>>:  *)
(*   1        the plain amount from / 16 is put in                         *)
(*   2, 3     constructed from a register, assigned from it                *)
(*   4..7     compound +, -, *, /                                          *)
(*   8..11    to = to op from          12..15  to = from op to             *)
(*   16       the two are exchanged    17, 18  sign changed, kept          *)
(*   19       the plain register takes the value out                       *)
(*   20..22   magnitude, floor, ceiling                                    *)
(* A tagged integer keeps the whole part of what it is given, as plain     *)
(* integers do, and two integers divide as integers.                       *)
(***************************************************************************)
EXTENDS Geo

U == 16
TagTDiv(a, b) == Sgn(a) * Sgn(b) * (Abs(a) \div Abs(b))
Whole(n, d) == U * TagTDiv(n, d * U)                       \* the whole part of n/d units
\* the result of  a op b  as <<numerator, denominator>> in units; ints: both are integers
Binary(f, a, b, ints) == CASE f = 0 -> <<a + b, 1>>
                           [] f = 1 -> <<a - b, 1>>
                           [] f = 2 -> <<a * b, U>>
                           [] f = 3 -> IF ints THEN <<U * TagTDiv(a, b), 1>> ELSE <<Sgn(b) * a * U, Abs(b)>>
Floor(v) == U * (v \div U)
\* the second operand; a plain number in a compound operation is first made the quantity's own kind
Taken(s, op) == IF op[1] \in 4..7 /\ op[2] = 1 /\ op[3] = 4 THEN Whole(s[4], 1) ELSE s[op[3]]
Result(s, op) ==
    LET c == op[1]
        k == op[2]
        x == s[op[2]]
        y == Taken(s, op)
        ints == k = 1 /\ (op[3] = 1 \/ (c \in 4..7 /\ op[3] = 4))
    IN  CASE c = 1 -> <<op[3], 1>>
          [] c \in {2, 3, 16} -> <<y, 1>>
          [] c \in 4..7 -> Binary(c - 4, x, y, ints)
          [] c \in 8..11 -> Binary(c - 8, x, y, ints)
          [] c \in 12..15 -> Binary(c - 12, y, x, ints)
          [] c = 17 -> <<-x, 1>>
          [] c \in {18, 19} -> <<x, 1>>
          [] c = 20 -> <<Abs(x), 1>>
          [] c = 21 -> <<Floor(x), 1>>
          [] c = 22 -> <<-Floor(-x), 1>>
\* what may be asked for: no division by nothing, and reals stay in the units
NonZero(s, op) == /\ op[1] \in {7, 11} => Taken(s, op) # 0
                  /\ op[1] = 15 => s[op[2]] # 0
TagAllowed(s, op) == IF NonZero(s, op)
                     THEN LET r == Result(s, op) IN (op[2] = 1 \/ r[1] % r[2] = 0) /\ Abs(r[1]) <= 1000000
                     ELSE FALSE
TagStep(s, op) ==
    LET r == Result(s, op)
        v == IF op[2] = 1 THEN Whole(r[1], r[2]) ELSE r[1] \div r[2]
    IN  CASE op[1] = 16 -> [s EXCEPT ![op[2]] = s[op[3]], ![op[3]] = s[op[2]]]
          [] op[1] = 19 -> [s EXCEPT ![4] = s[op[2]]]
          [] OTHER -> [s EXCEPT ![op[2]] = v]
Order(a, b) == <<a < b, a <= b, a = b, a # b, a >= b, a > b>>
\* after each step: the registers, 2 against 3, 2 against the plain one and back, 1 against 2, are 1 and 2 anything
TagSeen(s, r) == r = <<s, Order(s[2], s[3]), Order(s[2], s[4]), Order(s[4], s[3]), Order(s[1], s[2]), <<s[1] # 0, s[2] # 0>>>>
RECURSIVE TagRun(_, _, _, _)
TagRun(s, ops, r, k) == IF k > Len(ops) THEN TRUE
                        ELSE LET t == TagStep(s, ops[k]) IN TagSeen(t, r[k]) /\ TagRun(t, ops, r, k + 1)
TagStart == <<3 * U, 40, -8, 4 * U>>
TagSessionOK(ops, r) == Len(r) = Len(ops) /\ TagRun(TagStart, ops, r, 1)

\* functions: the value of the function of the value, whichever operand has a name
RECURSIVE TagPow(_, _)
TagPow(b, e) == IF e = 0 THEN 1 ELSE b * TagPow(b, e - 1)
PowOK(b, e, r) == \A i \in 1..Len(r) : r[i] = RNorm(TagPow(b, e), 1)
\* <<sine, cosine, tangent of the angle of (x, y), back from them, square root of rho^2, log10 10^y, exp log rho, and the angle itself>>
TrigOK(x, y, rho, r) == LET s == RNorm(y, rho)
                            c == RNorm(x, rho)
                        IN  /\ r[1] = s /\ r[2] = c /\ r[3] = RNorm(Sgn(x) * y, Abs(x))
                            /\ r[4] = s /\ r[5] = c /\ r[6] = RNorm(Sgn(x) * y, Abs(x))
                            /\ r[7] = RNorm(rho, 1) /\ r[8] = RNorm(y, 1) /\ r[9] = RNorm(rho, 1)
                            /\ \A i \in 10..Len(r) : r[i] = <<s, c>>
\* numbers of different names: sums, differences, products, quotients of the values
MixedOK(a, b, r) == \A i \in 1..Len(r) : r[i] = <<RNorm(a + b, U), RNorm(a - b, U), RNorm(a * b, U * U), RNorm(Sgn(b) * a, Abs(b))>>

TaggedAccepts(rec) ==
    LET a == rec.a
        r == rec.r
    IN  CASE rec.op = "session" -> TagSessionOK(a[1], r)
          [] rec.op = "pow" -> PowOK(a[1], a[2], r)
          [] rec.op = "trig" -> TrigOK(a[1], a[2], a[3], r)
          [] rec.op = "mixed" -> MixedOK(a[1], a[2], r)
=============================================================================
