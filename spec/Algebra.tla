------------------------------ MODULE Algebra ------------------------------
(***************************************************************************)
(* Linear algebra over a store of registers: scalars, 3-vectors, points    *)
(* and 3x3 matrices with integer entries.  Expressions are trees           *)
(*     <<op, operand, ...>>   with leaves  <<type, k>>  (k-th leaf)        *)
(* that are evaluated exactly, in the rationals, whatever the code does:   *)
(* lazily, element by element, or into a register that the expression      *)
(* itself reads.                                                           *)
(***************************************************************************)
EXTENDS Geo

\* ------------------------------------------------------------ exact values
\* a value: kind, numerators, one positive denominator.  "U": undefined (divides by zero), "X": singular matrix inverted,
\* "I": irrational
RECURSIVE GcdSeq(_, _, _)
GcdSeq(s, i, g) == IF i > Len(s) THEN g ELSE GcdSeq(s, i + 1, Gcd(g, Abs(s[i])))
Val(k, n, d) == LET sg == IF d < 0 THEN -1 ELSE 1
                    g == GcdSeq(n, 1, Abs(d))
                IN  [k |-> k, n |-> [i \in 1..Len(n) |-> (n[i] * sg) \div g], d |-> Abs(d) \div g]
Undef == [k |-> "U", n |-> <<>>, d |-> 1]
Singular == [k |-> "X", n |-> <<>>, d |-> 1]
Irrational == [k |-> "I", n |-> <<>>, d |-> 1]
Bad(v) == v.k \in {"U", "X", "I"}
IsSquare(m) == \E r \in 0..3000 : r * r = m
Root(m) == CHOOSE r \in 0..3000 : r * r = m

Det3(n) == n[1] * (n[5] * n[9] - n[6] * n[8]) - n[2] * (n[4] * n[9] - n[6] * n[7]) + n[3] * (n[4] * n[8] - n[5] * n[7])
\* adjugate (transposed cofactors), row major
Adj3(n) == << n[5] * n[9] - n[6] * n[8], n[3] * n[8] - n[2] * n[9], n[2] * n[6] - n[3] * n[5],
              n[6] * n[7] - n[4] * n[9], n[1] * n[9] - n[3] * n[7], n[3] * n[4] - n[1] * n[6],
              n[4] * n[8] - n[5] * n[7], n[2] * n[7] - n[1] * n[8], n[1] * n[5] - n[2] * n[4] >>
Trans3(n) == <<n[1], n[4], n[7], n[2], n[5], n[8], n[3], n[6], n[9]>>
MatMul(a, b) == [i \in 1..9 |-> LET r == (i - 1) \div 3
                                    c == (i - 1) % 3
                                IN a[3 * r + 1] * b[c + 1] + a[3 * r + 2] * b[c + 4] + a[3 * r + 3] * b[c + 7]]
MatVec(a, v) == [r \in 1..3 |-> a[3 * r - 2] * v[1] + a[3 * r - 1] * v[2] + a[3 * r] * v[3]]
DotN(a, b) == LET RECURSIVE S(_)
                  S(i) == IF i = 0 THEN 0 ELSE S(i - 1) + a[i] * b[i]
              IN S(Len(a))
Cross3(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>

\* the root of a rational square
SqrtVal(n, d) == LET g == Gcd(n, d)
                     nn == n \div g
                     dd == d \div g
                 IN IF n = 0 THEN Val("S", <<0>>, 1) ELSE IF IsSquare(nn) /\ IsSquare(dd) THEN Val("S", <<Root(nn)>>, Root(dd)) ELSE Irrational

\* reciprocal of every component: the product of the others over the product of all
LcmSeq(n) == LET RECURSIVE L(_)
                 L(i) == IF i = 0 THEN 1 ELSE LET l == L(i - 1) IN (l \div Gcd(l, Abs(n[i]))) * Abs(n[i])
             IN L(Len(n))
Recip(v) == IF \E i \in 1..Len(v.n) : v.n[i] = 0 THEN Undef
            ELSE LET l == LcmSeq(v.n) IN Val(v.k, [i \in 1..Len(v.n) |-> v.d * (l \div v.n[i])], l)
Un(op, v) == IF Bad(v) THEN v ELSE
    CASE op = "neg" -> Val(v.k, [i \in 1..Len(v.n) |-> -v.n[i]], v.d)
      [] op = "trans" -> Val("M", Trans3(v.n), v.d)
      [] op = "det" -> Val("S", <<Det3(v.n)>>, v.d * v.d * v.d)
      [] op = "inv" -> IF Det3(v.n) = 0 THEN (IF v.d = 1 THEN Singular ELSE Undef)
                       ELSE LET w == Val("M", Adj3(v.n), Det3(v.n)) IN Val("M", [i \in 1..9 |-> w.n[i] * v.d], w.d)
      [] op = "rec" -> Recip(v)
      [] op = "mag" -> SqrtVal(DotN(v.n, v.n), v.d * v.d)
      [] op = "norm" -> LET m == SqrtVal(DotN(v.n, v.n), 1)
                        IN IF Bad(m) THEN m ELSE IF m.n[1] = 0 THEN Undef ELSE Val("V", v.n, m.n[1])
      [] OTHER -> Undef
\* bring two values to one denominator
Lcm2(a, b) == (a \div Gcd(a, b)) * b
Over(v, d) == [i \in 1..Len(v.n) |-> v.n[i] * (d \div v.d)]
Bi(op, v, w) == IF Bad(v) THEN v ELSE IF Bad(w) THEN w ELSE
    LET d == Lcm2(v.d, w.d)
        a == Over(v, d)
        b == Over(w, d)
    IN  CASE op = "add" -> Val(v.k, [i \in 1..Len(a) |-> a[i] + b[i]], d)
          [] op = "sub" -> Val(IF v.k = "P" /\ w.k = "P" THEN "V" ELSE v.k, [i \in 1..Len(a) |-> a[i] - b[i]], d)
          [] op = "cross" -> Val("V", Cross3(v.n, w.n), v.d * w.d)
          [] op = "div" -> IF w.n[1] = 0 THEN Undef ELSE Val(v.k, [i \in 1..Len(v.n) |-> v.n[i] * w.d], v.d * w.n[1])
          [] op = "mul" -> CASE v.k = "S" -> Val(w.k, [i \in 1..Len(w.n) |-> v.n[1] * w.n[i]], v.d * w.d)
                             [] v.k = "V" /\ w.k = "S" -> Val("V", [i \in 1..3 |-> w.n[1] * v.n[i]], v.d * w.d)
                             [] v.k = "V" /\ w.k = "V" -> Val("S", <<DotN(v.n, w.n)>>, v.d * w.d)
                             [] v.k = "M" /\ w.k = "M" -> Val("M", MatMul(v.n, w.n), v.d * w.d)
                             [] v.k = "M" /\ w.k \in {"V", "P"} -> Val(w.k, MatVec(v.n, w.n), v.d * w.d)
                             [] OTHER -> Undef
          [] OTHER -> Undef
\* leaf k reads register bind[k + 1] of its type; st: type -> sequence of registers
RECURSIVE Ev(_, _, _)
Ev(t, st, bind) == IF t[1] \in {"S", "V", "P", "M"} THEN [k |-> t[1], n |-> st[t[1]][bind[t[2] + 1] + 1], d |-> 1]
                   ELSE IF Len(t) = 2 THEN Un(t[1], Ev(t[2], st, bind))
                   ELSE Bi(t[1], Ev(t[2], st, bind), Ev(t[3], st, bind))

\* ------------------------------------------------------------ well-typed expressions
Leaf == [S |-> {<<"S">>}, V |-> {<<"V">>}, P |-> {<<"P">>}, M |-> {<<"M">>}]
UnOps == {<<"neg", "V", "V">>, <<"neg", "M", "M">>, <<"trans", "M", "M">>, <<"inv", "M", "M">>, <<"det", "M", "S">>,
          <<"mag", "V", "S">>, <<"norm", "V", "V">>, <<"rec", "S", "S">>, <<"rec", "V", "V">>, <<"rec", "M", "M">>}
BiOps == {<<"add", "V", "V", "V">>, <<"add", "P", "V", "P">>, <<"add", "M", "M", "M">>, <<"sub", "V", "V", "V">>, <<"sub", "P", "V", "P">>,
          <<"sub", "P", "P", "V">>, <<"sub", "M", "M", "M">>, <<"mul", "S", "V", "V">>, <<"mul", "V", "S", "V">>, <<"mul", "V", "V", "S">>,
          <<"mul", "M", "M", "M">>, <<"mul", "M", "V", "V">>, <<"mul", "M", "P", "P">>, <<"mul", "S", "M", "M">>, <<"div", "V", "S", "V">>,
          <<"div", "M", "S", "M">>, <<"cross", "V", "V", "V">>}
Deeper(e) == [ty \in {"S", "V", "P", "M"} |->
                 e[ty] \cup UNION {{<<o[1], x>> : x \in e[o[2]]} : o \in {o \in UnOps : o[3] = ty}}
                       \cup UNION {{<<o[1], x, y>> : x \in e[o[2]], y \in e[o[3]]} : o \in {o \in BiOps : o[4] = ty}}]
\* number the leaves from left to right
RECURSIVE Number(_, _)
Number(t, k) == IF Len(t) = 1 THEN <<<<t[1], k>>, k + 1>>
                ELSE IF Len(t) = 2 THEN LET x == Number(t[2], k) IN <<<<t[1], x[1]>>, x[2]>>
                ELSE LET x == Number(t[2], k)
                         y == Number(t[3], x[2])
                     IN <<<<t[1], x[1], y[1]>>, y[2]>>

\* ------------------------------------------------------------ what the code may answer
Same(v, r) == r = [i \in 1..Len(v.n) |-> <<v.n[i], v.d>>] \/ (Len(r) = Len(v.n) /\ \A i \in 1..Len(r) : r[i][1] * v.d = v.n[i] * r[i][2] /\ r[i][2] > 0)
\* answers that cannot be written down as small rationals are not judged
Small(v) == v.d <= 60000 /\ \A i \in 1..Len(v.n) : Abs(v.n[i]) <= 30000000
\* squares with sign, for roots
SgnSq(n) == [i \in 1..Len(n) |-> n[i] * Abs(n[i])]
ExprOk(t, st, bind, r) ==
    LET top == t[1]
        v == IF top \in {"mag", "norm"}
             THEN LET w == Ev(t[2], st, bind)
                      q == DotN(w.n, w.n)
                  IN IF Bad(w) THEN w ELSE IF top = "mag" THEN Val("S", <<q>>, w.d * w.d) ELSE IF q = 0 THEN Undef ELSE Val("V", SgnSq(w.n), q)
             ELSE Ev(t, st, bind)
    IN  CASE v.k = "X" -> r.s = 1
          [] v.k \in {"U", "I"} -> TRUE
          [] OTHER -> IF Small(v) THEN r.s = 0 /\ Len(r.v) = Len(v.n) /\ \A i \in 1..Len(v.n) : LET q == Val("S", <<v.n[i]>>, v.d) IN r.v[i] = <<q.n[1], q.d>>
                      ELSE TRUE

\* ------------------------------------------------------------ matrices of any size, as sequences of rows
Rows(m) == Len(m)
Cols(m) == Len(m[1])
Without(s, j) == [i \in 1..(Len(s) - 1) |-> IF i < j THEN s[i] ELSE s[i + 1]]
Minor(m, i, j) == [k \in 1..(Len(m) - 1) |-> Without((IF k < i THEN m[k] ELSE m[k + 1]), j)]
RECURSIVE DetN(_)
DetN(m) == IF Len(m) = 1 THEN m[1][1]
           ELSE IF Len(m) = 2 THEN m[1][1] * m[2][2] - m[1][2] * m[2][1]
           ELSE LET RECURSIVE S(_)
                    S(j) == IF j = 0 THEN 0
                            ELSE S(j - 1) + (IF m[1][j] = 0 THEN 0 ELSE (IF j % 2 = 1 THEN 1 ELSE -1) * m[1][j] * DetN(Minor(m, 1, j)))
                IN S(Len(m))
TraceN(m) == LET RECURSIVE S(_)
                 S(i) == IF i = 0 THEN 0 ELSE S(i - 1) + m[i][i]
             IN S(Len(m))
TransN(m) == [j \in 1..Cols(m) |-> [i \in 1..Rows(m) |-> m[i][j]]]
Cofactor(m, i, j) == (IF (i + j) % 2 = 0 THEN 1 ELSE -1) * DetN(Minor(m, i, j))
AdjN(m) == [i \in 1..Len(m) |-> [j \in 1..Len(m) |-> Cofactor(m, j, i)]]
MulN(a, b) == [i \in 1..Rows(a) |-> [j \in 1..Cols(b) |-> DotN(a[i], [k \in 1..Rows(b) |-> b[k][j]])]]
ApplyN(a, v) == [i \in 1..Rows(a) |-> DotN(a[i], v)]
AddN(a, b, s) == [i \in 1..Rows(a) |-> [j \in 1..Cols(a) |-> a[i][j] + s * b[i][j]]]
KronN(a, b) == [i \in 1..(Rows(a) * Rows(b)) |-> [j \in 1..(Cols(a) * Cols(b)) |->
                    a[((i - 1) \div Rows(b)) + 1][((j - 1) \div Cols(b)) + 1] * b[((i - 1) % Rows(b)) + 1][((j - 1) % Cols(b)) + 1]]]
LinN(a, b, s) == [i \in 1..Len(a) |-> a[i] + s * b[i]]
IsInt(q, n) == q = <<n, 1>>
IsVec(r, v) == Len(r) = Len(v) /\ \A i \in 1..Len(v) : IsInt(r[i], v[i])
IsMat(r, m) == Len(r) = Len(m) /\ \A i \in 1..Len(m) : IsVec(r[i], m[i])
\* r = n / d
IsRat(q, n, d) == q[2] > 0 /\ q[1] * d = n * q[2]
IsRatVec(r, n, d) == Len(r) = Len(n) /\ \A i \in 1..Len(n) : IsRat(r[i], n[i], d)

\* an LU factorisation of the row-permuted matrix: rationals multiplied out
RECURSIVE RatSum(_, _)
RatSum(s, i) == IF i = 0 THEN <<0, 1>> ELSE
                LET p == RatSum(s, i - 1)
                    q == s[i]
                    d == Lcm2(p[2], q[2])
                IN <<p[1] * (d \div p[2]) + q[1] * (d \div q[2]), d>>
FactorsOf(lu, pi, a) == LET n == Len(a) IN
    \A i \in 1..n, j \in 1..n :
        LET t == [k \in 1..n |-> IF k > j \/ k > i THEN <<0, 1>> ELSE IF k = i THEN lu[k][j] ELSE <<lu[i][k][1] * lu[k][j][1], lu[i][k][2] * lu[k][j][2]>>]
            s == RatSum(t, n)
        IN s[1] = a[pi[i] + 1][j] * s[2]
LupOk(a, x, r) ==
    IF DetN(a) = 0 THEN TRUE
    ELSE /\ r.s = 0
         /\ {r.pi[i] : i \in 1..Len(r.pi)} = 0..(Len(a) - 1) /\ Len(r.pi) = Len(a)
         /\ IsVec(r.x, x)
         /\ ~r.big
         /\ r.lu = <<>> \/ FactorsOf(r.lu, r.pi, a)

MatAccepts(rec) == LET a == rec.a
                       r == rec.r
                   IN
    CASE rec.op = "det" -> IsInt(r[1], DetN(a[1])) /\ IsInt(r[2], TraceN(a[1]))
      [] rec.op = "trans" -> IsMat(r[1], TransN(a[1]))
      [] rec.op = "inverse" -> LET d == DetN(a[1])
                                   adj == AdjN(a[1])
                               IN IF d = 0 THEN r[1] = 1 ELSE r[1] = 0 /\ Len(r[2]) = Len(a[1]) /\ \A i \in 1..Len(a[1]) : IsRatVec(r[2][i], adj[i], d)
      [] rec.op = "product" -> IsMat(r[1], MulN(a[1], a[2]))
      [] rec.op = "sum" -> IsMat(r[1], AddN(a[1], a[2], 1)) /\ IsMat(r[2], AddN(a[1], a[2], -a[3]))
      [] rec.op = "apply" -> IsVec(r[1], ApplyN(a[1], a[2])) /\ IsVec(r[2], ApplyN(a[1], a[2]))
      [] rec.op = "views" -> LET m == a[1]
                                 t == TransN(m)
                             IN IsMat(r[1], <<m[1], m[Len(m)]>>) /\ IsMat(r[2], <<t[1], t[Len(t)]>>)
      [] rec.op = "kron" -> IsMat(r[1], KronN(a[1], a[2]))
      [] rec.op = "lup" -> LupOk(a[1], a[2], r)
      [] rec.op = "dot" -> IsInt(r[1], DotN(a[1], a[2])) /\ IsInt(r[2], DotN(a[1], a[2]))
      [] rec.op = "lin" -> IsVec(r[1], LinN(a[1], a[2], 1)) /\ IsVec(r[2], LinN(a[1], a[2], -a[3])) /\ IsVec(r[3], [i \in 1..Len(a[1]) |-> -a[1][i]])
      [] rec.op = "sqr" -> LET q == DotN(a[1], a[1]) IN IsInt(r[1], q) /\ IsInt(r[2], q) /\ r[3] = (q = 0)
      [] rec.op = "equal" -> r = <<a[1] = a[2], TRUE>>
      [] rec.op = "inplace" -> LET m == a[1]
                                   v == a[2]
                                   w == a[3]
                                   k == a[4]
                                   n == Len(v)
                                   mv == ApplyN(m, v)
                               IN /\ Len(r) = 14
                                  /\ IsVec(r[1], LinN(v, w, 1)) /\ IsVec(r[2], LinN(v, w, -1)) /\ IsVec(r[3], [i \in 1..n |-> k * v[i]])
                                  /\ IsRatVec(r[4], v, k)
                                  /\ IsVec(r[5], mv) /\ IsVec(r[6], LinN(v, mv, 1)) /\ IsVec(r[7], LinN(v, mv, -1)) /\ IsVec(r[8], mv)
                                  /\ IsVec(r[9], LinN(v, w, 1 - k)) /\ IsVec(r[10], [i \in 1..n |-> v[n] * v[i]])
                                  /\ IsVec(r[11], [[v EXCEPT ![1] = w[2], ![2] = w[1]] EXCEPT ![n] = IF n = 2 THEN k + 1 ELSE k, ![2] = IF n = 2 THEN k + 1 ELSE w[1] + 1])
                                  /\ IsVec(r[12], LinN(v, ApplyN(m, LinN(w, v, -1)), 1))
                                  /\ IsVec(r[13], LinN(v, mv, 1))
                                  /\ IsVec(r[14], [i \in 1..n |-> v[n + 1 - i]])
      [] rec.op = "project" -> LET ab == DotN(a[1], a[2])
                                   bb == DotN(a[2], a[2])
                               IN /\ IsRatVec(r[1], [i \in 1..Len(a[2]) |-> ab * a[2][i]], bb)
                                  /\ IsRat(r[2], ab * Abs(ab), bb)
                                  /\ IsRatVec(r[3], SgnSq(a[2]), bb) /\ IsRatVec(r[4], SgnSq(a[2]), bb)
      [] rec.op = "normals" -> LET left == <<-a[1][2], a[1][1]>>
                                   right == <<a[1][2], -a[1][1]>>
                               IN IsVec(r[1], left) /\ IsVec(r[2], left) /\ IsVec(r[3], right) /\ IsVec(r[4], left) /\ IsVec(r[5], right)
      [] rec.op = "area" -> IsInt(r[1], DetN(<<a[1], a[2]>>))
      [] rec.op = "volume" -> IsInt(r[1], DetN(<<a[1], a[2], a[3]>>)) /\ IsVec(r[2], Cross3(a[1], a[2])) /\ IsInt(r[3], LET c == Cross3(a[1], a[2]) IN c[1] + c[2] + c[3])
      [] rec.op = "affine2" -> IsVec(r[1], SubSeq(ApplyN(a[1], Append(a[2], 1)), 1, 2)) /\ IsVec(r[2], SubSeq(ApplyN(a[1], Append(a[3], 0)), 1, 2))
      [] rec.op = "affine2b" -> IsVec(r[1], SubSeq(ApplyN(MulN(a[1], a[2]), Append(a[3], 1)), 1, 2))
      [] rec.op = "affine3" -> IsVec(r[1], SubSeq(ApplyN(a[1], Append(a[2], 1)), 1, 3)) /\ IsVec(r[2], SubSeq(ApplyN(a[1], Append(a[3], 0)), 1, 3))
      [] rec.op = "minors" -> \A i \in 1..3, j \in 1..3 : LET m == Minor(a[1], i, j) IN IsVec(r[3 * (i - 1) + j], m[1] \o m[2])
      [] OTHER -> FALSE
AlgAccepts(rec) ==
    CASE rec.op = "expression" -> rec.r.o /\ ExprOk(rec.a[1], rec.a[2], rec.a[3], rec.r)
      [] OTHER -> FALSE
=============================================================================
