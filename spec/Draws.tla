------------------------------- MODULE Draws -------------------------------
(***************************************************************************)
(* C32: generators of random numbers, of counts and of colours.  What a    *)
(* generator draws next is fixed by its kind, its limit, its seed and how  *)
(* many it has drawn: which numbers those are is left open, but the same   *)
(* history always gives the same number, always inside the limit.  Three   *)
(* registers; operations <<code, to, a, b>>:                               *)
(*   1  made with limit a and seed b       2  copied from register a       *)
(*   3  draws (a: the limit of this draw, where the kind takes one)        *)
(*   4  reseeded with a                    5  made from an engine, as 1    *)
(*   6  assigned from register a           7  draws an element of a range  *)
(***************************************************************************)
EXTENDS Geo, FiniteSets

DrawsStart == <<<<1, 1, 0>>, <<2, 1, 0>>, <<3, 2, 0>>>>        \* <<limit, seed, drawn>>
IsDraw(op) == op[1] \in {3, 7}
DrawsStep(g, op) ==
    LET k == op[2] IN
    CASE op[1] \in {1, 5} -> [g EXCEPT ![k] = <<op[3], op[4], 0>>]
      [] op[1] \in {2, 6} -> [g EXCEPT ![k] = g[op[3]]]
      [] op[1] = 4 -> [g EXCEPT ![k] = <<g[k][1], op[3], 0>>]
      [] OTHER -> [g EXCEPT ![k][3] = @ + 1]
\* what determines the number: kind 3 takes its limit with each draw
DrawKey(kind, g, op) == IF kind = 3 THEN <<op[3], g[op[2]][2], g[op[2]][3]>> ELSE g[op[2]]
Within(kind, key, v) == IF kind = 2 THEN 0 <= v[1] /\ v[1] < 1048576           \* the part of the limit, in 2^-20
                        ELSE 0 <= v /\ v < key[1]
RECURSIVE DrawsRun(_, _, _, _, _, _)
DrawsRun(kind, g, known, ops, r, k) ==
    IF k > Len(ops) THEN TRUE
    ELSE LET op == ops[k]
             h == DrawsStep(g, op)
         IN  IF ~IsDraw(op) THEN DrawsRun(kind, h, known, ops, r, k + 1)
             ELSE LET key == DrawKey(kind, g, op)
                  IN  /\ Within(kind, key, r[k])
                      /\ \A p \in known : p[1] = key => p[2] = r[k]
                      /\ DrawsRun(kind, h, known \cup {<<key, r[k]>>}, ops, r, k + 1)
DrawsOK(kind, ops, r) == Len(r) = Len(ops) /\ DrawsRun(kind, DrawsStart, {}, ops, r, 1)

\* every number within the limit is drawn sooner or later
SpreadOK(m, r) == {r[i] : i \in 1..Len(r)} = 0..(m - 1)

\* counting: each call gives the count and moves it by one; copies count on their own
RECURSIVE CountRun(_, _, _, _)
CountRun(c, ops, r, k) ==
    IF k > Len(ops) THEN TRUE
    ELSE LET op == ops[k] IN
         IF op[1] = 2 THEN CountRun([c EXCEPT ![op[2]] = c[op[3]]], ops, r, k + 1)
         ELSE r[k] = c[op[2]] /\ CountRun([c EXCEPT ![op[2]] = @ + 1], ops, r, k + 1)
CountOK(init, ops, r) == Len(r) = Len(ops) /\ CountRun(<<init, init + 1, init + 2>>, ops, r, 1)

\* colours: hue a/64, saturation b/16, value c/16; the parts in order alpha, red, green, blue
Part(n, d) == (255 * n) \div d                                \* n/d of 255, whole
HsvRgb(a, b, c) ==
    LET i == (6 * a) \div 64
        f == 6 * a - 64 * i                                   \* in 1/64
        v == Part(c, 16)
        p == Part(c * (16 - b), 256)
        q == Part(c * (1024 - f * b), 16384)
        t == Part(c * (1024 - (64 - f) * b), 16384)
    IN  CASE i % 6 = 0 -> <<255, v, t, p>>
          [] i % 6 = 1 -> <<255, q, v, p>>
          [] i % 6 = 2 -> <<255, p, v, t>>
          [] i % 6 = 3 -> <<255, p, q, v>>
          [] i % 6 = 4 -> <<255, t, p, v>>
          [] i % 6 = 5 -> <<255, v, p, q>>
MaxOf3(x) == IF x[2] >= x[3] /\ x[2] >= x[4] THEN x[2] ELSE IF x[3] >= x[4] THEN x[3] ELSE x[4]
MinOf3(x) == IF x[2] <= x[3] /\ x[2] <= x[4] THEN x[2] ELSE IF x[3] <= x[4] THEN x[3] ELSE x[4]
\* so many colours of that saturation and value, whatever the hue; fewer are the first of more
Shade(b, c, x) == x[1] = 255 /\ MaxOf3(x) = Part(c, 16) /\ MinOf3(x) = Part(c * (16 - b), 256)
ColorsOK(n, m, b, c, r) == /\ Len(r[1]) = n /\ Len(r[2]) = m
                           /\ \A i \in 1..m : Shade(b, c, r[2][i])
                           /\ \A i \in 1..n : i <= m => r[1][i] = r[2][i]

DrawsAccepts(rec) ==
    LET a == rec.a
        r == rec.r
    IN  CASE rec.op = "draws" -> DrawsOK(a[1], a[2], r)
          [] rec.op = "spread" -> SpreadOK(a[1], r)
          [] rec.op = "count" -> CountOK(a[1], a[2], r)
          [] rec.op = "hsv" -> r = HsvRgb(a[1], a[2], a[3])
          [] rec.op = "colors" -> ColorsOK(a[1], a[2], a[3], a[4], r)
=============================================================================
