------------------------------- MODULE Fixed -------------------------------
(***************************************************************************)
(* C27: fixed-point numbers.  A number of a kind is an integer m standing  *)
(* for m / S, S = radix^digits; two registers x and y of the same kind are *)
(* worked on by a session of operations, each of which is either carried   *)
(* out or refused, and refused means nothing has changed.                  *)
(*   kind  <<radix, digits, shift, lo, hi, rounding>>                      *)
(*     shift     1: scaling down floors (a binary shift), 0: it truncates  *)
(*     rounding  0 to the nearest, halves to even, 1 toward zero,          *)
(*               2 up, 3 down: for numbers coming in from outside          *)
(***************************************************************************)
EXTENDS Geo

RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
Scale(kind) == Pow(kind[1], kind[2])
TDiv(a, b) == Sgn(a) * Sgn(b) * (Abs(a) \div Abs(b))           \* toward zero
TMod(a, b) == a - b * TDiv(a, b)
\* n/d (d > 0) to an integer
Nearest(n, d) == LET f == n \div d
                     w == 2 * (n % d)
                 IN  IF w < d THEN f ELSE IF w > d THEN f + 1 ELSE IF f % 2 = 0 THEN f ELSE f + 1
Round(how, n, d) == CASE how = 0 -> Nearest(n, d) [] how = 1 -> TDiv(n, d) [] how = 2 -> -((-n) \div d) [] how = 3 -> n \div d
\* the number n/d of the outside world as a scaled integer
Take(kind, n, d) == Round(kind[6], n * Scale(kind), d)
Down(kind, v) == IF kind[3] = 1 THEN v \div Scale(kind) ELSE TDiv(v, Scale(kind))
Fits(kind, v) == kind[4] <= v /\ v <= kind[5]
Times(kind, a, b) == Down(kind, a * b)
Over(kind, a, b) == TDiv(a * Scale(kind), b)

\* operations <<code, n, d>>; what the session does to the pair <<x, y>>
Wanted(kind, s, op) ==
    LET x == s[1]
        y == s[2]
        v == Take(kind, op[2], op[3])
    IN  CASE op[1] = 1 -> <<v, y>>
          [] op[1] = 2 -> <<x, v>>
          [] op[1] = 3 -> <<x + y, y>>
          [] op[1] = 4 -> <<x - y, y>>
          [] op[1] = 5 -> <<Times(kind, x, y), y>>
          [] op[1] = 6 -> <<Over(kind, x, y), y>>
          [] op[1] = 7 -> <<-x, y>>
          [] op[1] = 8 -> <<x + Scale(kind), y>>
          [] op[1] = 9 -> <<x - Scale(kind), y>>
          [] op[1] = 10 -> <<y, x>>
          [] op[1] = 11 -> <<x, x>>
          [] op[1] = 12 -> <<x + v, y>>
          [] op[1] = 13 -> <<x - v, y>>
          [] op[1] = 14 -> <<Times(kind, x, v), y>>
          [] op[1] = 15 -> <<Over(kind, x, v), y>>
          [] op[1] = 16 -> <<v - x, y>>
          [] op[1] = 17 -> <<Over(kind, v, x), y>>
          [] op[1] = 18 -> <<TMod(x, y), y>>
          [] op[1] = 19 -> <<x, 2 * y>>
          [] op[1] = 20 -> <<x, Times(kind, y, y)>>
          [] op[1] = 21 -> <<Abs(x), y>>
UsesAmount(op) == op[1] \in {1, 2, 12, 13, 14, 15, 16, 17}
Checked(op) == op[1] \in {5, 6, 14, 15, 17, 20}
\* what callers must not ask for: dividing by nothing, and sums that leave the format
Allowed(kind, s, op) == LET v == Take(kind, op[2], op[3])
                        IN  /\ op[1] \in {6, 18} => s[2] # 0
                            /\ op[1] = 15 => v # 0
                            /\ op[1] = 17 => s[1] # 0
                            /\ (UsesAmount(op) /\ ~Fits(kind, v)) \/ Checked(op) \/
                               LET w == Wanted(kind, s, op) IN Fits(kind, w[1]) /\ Fits(kind, w[2])
\* refused: the amount, a product or a quotient does not fit
Refused(kind, s, op) == \/ UsesAmount(op) /\ ~Fits(kind, Take(kind, op[2], op[3]))
                        \/ Checked(op) /\ LET w == Wanted(kind, s, op) IN ~Fits(kind, w[1]) \/ ~Fits(kind, w[2])
FixStep(kind, s, op) == IF Refused(kind, s, op) THEN s ELSE Wanted(kind, s, op)

\* what is seen after a step: <<refused, x, y scaled, x as a rational, x as an integer, x < y, x = y, x > y, x <> 0>>
Seen(kind, s, op, r) == LET t == FixStep(kind, s, op)
                        IN  r = <<Refused(kind, s, op), t[1], t[2], RNorm(t[1], Scale(kind)), Down(kind, t[1]), t[1] < t[2], t[1] = t[2], t[1] > t[2], t[1] # 0>>
RECURSIVE Session(_, _, _, _, _)
Session(kind, s, ops, r, k) == k > Len(ops) \/ (Seen(kind, s, ops[k], r[k]) /\ Session(kind, FixStep(kind, s, ops[k]), ops, r, k + 1))
SessionOK(kind, ops, r) == Len(r) = Len(ops) /\ Session(kind, <<0, 0>>, ops, r, 1)

\* a number m of one kind taken over into another: the value rounded there, or refused
ConvOK(from, to, m, r) == LET v == Round(to[6], m * Scale(to), Scale(from))
                          IN  r = (IF Fits(to, v) THEN <<FALSE, v>> ELSE <<TRUE, 0>>)
\* x against the outside number n/d, which is rounded first: <<x < q, x <= q, x = q, x # q, x >= q, x > q, and the same from the other side>>
CompareOK(kind, m, n, d, r) == LET v == Take(kind, n, d)
                               IN  r = <<m < v, m <= v, m = v, m # v, m >= v, m > v, v < m, v <= m, v = m, v # m, v >= m, v > m>>
\* <<smallest, largest, step>> as scaled integers
LimitsOK(kind, r) == r = <<kind[4], kind[5], 1>>
\* written out and read back
TextOK(m, r) == r = m

\* functions: <<floor, ceiling, magnitude (by both names), the magnitude with the sign of k, e^0, cos 0>>, all of the same kind
MathOK(kind, m, k, r) == LET S == Scale(kind)
                         IN  r = <<S * (m \div S), -(S * ((-m) \div S)), Abs(m), Abs(m), IF k < 0 THEN -Abs(m) ELSE Abs(m), S, S>>
\* the root of the number whose root is s, both as numbers of the kind; 10^e has the logarithm e
RootOK(kind, s, e, r) == r = <<s, e * Scale(kind)>>
\* two numbers, each with its own scale: <<m, radix, digits>>; exchanged, then the first made a copy of the second,
\* as rationals: a' b' a'' and the sum of a'' with itself, and one more than it
ExchangeOK(a, b, r) == LET A == RNorm(a[1], Pow(a[2], a[3]))
                           B == RNorm(b[1], Pow(b[2], b[3]))
                       IN  r = <<B, A, A, RNorm(2 * a[1], Pow(a[2], a[3])), RNorm(a[1] + Pow(a[2], a[3]), Pow(a[2], a[3]))>>

FixAccepts(rec) ==
    LET a == rec.a
        r == rec.r
    IN  CASE rec.op = "session" -> SessionOK(a[1], a[2], r)
          [] rec.op = "conv" -> ConvOK(a[1], a[2], a[3], r)
          [] rec.op = "compare" -> CompareOK(a[1], a[2], a[3], a[4], r)
          [] rec.op = "limits" -> LimitsOK(a[1], r)
          [] rec.op = "math" -> MathOK(a[1], a[2], a[3], r)
          [] rec.op = "root" -> RootOK(a[1], a[2], a[3], r)
          [] rec.op = "exchange" -> ExchangeOK(a[1], a[2], r)
          [] rec.op = "text" -> TextOK(a[2], r)
=============================================================================
