----------------------------- MODULE Policies ------------------------------
(***************************************************************************)
(* Number comparison policies over the dyadic numbers k/8, tolerance c/64. *)
(*   direct    exact                                                       *)
(*   absolute  |u - v| <= t                                                *)
(*   fraction  the difference is at most the fraction t of either number;  *)
(*             when one of them is zero the other is at most z in size     *)
(*   relative  |u - v| <= t (|u| + |v| + 1)                                *)
(* A mapped policy applies the policy registered for the type of its left  *)
(* operand, the default one otherwise.                                     *)
(***************************************************************************)
EXTENDS Geo
DIRECT == 0
ABSOLUTE == 1
FRACTION == 2
RELATIVE == 3
Eq(p, c, z, u, v) == CASE p = DIRECT -> u = v
                       [] p = ABSOLUTE -> 8 * Abs(u - v) <= c
                       [] p = FRACTION -> IF u = 0 THEN 8 * Abs(v) <= z ELSE IF v = 0 THEN 8 * Abs(u) <= z
                                          ELSE 64 * Abs(u - v) <= c * Abs(v) /\ 64 * Abs(u - v) <= c * Abs(u)
                       [] p = RELATIVE -> 64 * Abs(u - v) <= c * (Abs(u) + Abs(v) + 8)
Lt(p, c, z, u, v) == u < v /\ ~Eq(p, c, z, u, v)
Gt(p, c, z, u, v) == u > v /\ ~Eq(p, c, z, u, v)
Le(p, c, z, u, v) == u < v \/ Eq(p, c, z, u, v)
Ge(p, c, z, u, v) == u > v \/ Eq(p, c, z, u, v)
Answers(p, c, z, u, v) == <<Eq(p, c, z, u, v), Lt(p, c, z, u, v), Le(p, c, z, u, v), Gt(p, c, z, u, v), Ge(p, c, z, u, v)>>
\* registered = the policies by type, 0-th the default: each <<p, c, z>>
Pick(reg, ty) == IF ty + 1 <= Len(reg) /\ ty > 0 THEN reg[ty + 1] ELSE reg[1]
\* the number nearest to u between the limits
Within(u, lo, hi) == IF u < lo THEN lo ELSE IF u > hi THEN hi ELSE u
PolAccepts(rec) ==
    CASE rec.op = "compare" -> \* policy, c, z, u, v
            rec.r = Answers(rec.a[1], rec.a[2], rec.a[3], rec.a[4], rec.a[5])
      [] rec.op = "mapped" -> LET q == Pick(rec.a[1], rec.a[2]) IN rec.r = Answers(q[1], q[2], q[3], rec.a[3], rec.a[4])
      [] rec.op = "sequence" -> \* equal in every coordinate
            LET p == rec.a[1] IN rec.r = \A k \in 1..Len(p) : Eq(rec.a[3], rec.a[4], rec.a[5], rec.a[1][k], rec.a[2][k])
      [] rec.op = "null" -> rec.r = \A k \in 1..Len(rec.a[1]) : Eq(rec.a[2], rec.a[3], rec.a[4], rec.a[1][k], 0)
      [] rec.op = "limits" -> \* number, lower and upper limit, another number
            LET u == rec.a[1]
                w == Within(u, rec.a[2], rec.a[3])
                v == rec.a[4]
                least == IF u < v THEN u ELSE v
            IN  rec.r = <<w, w, IF u >= 0 THEN 1 ELSE -1, IF u >= 0 THEN 1 ELSE -1, least, u + v - least, least, u + v - least>>
      [] rec.op = "pairs" -> \* by their first, by their second
            LET L(x, y) == Lt(rec.a[1], rec.a[2], rec.a[3], x, y)
                q == rec.a[4]
            IN  rec.r = <<L(q[1], q[3]), L(q[3], q[1]), L(q[2], q[4]), L(q[4], q[2])>>
      [] OTHER -> FALSE
=============================================================================
