-------------------------------- MODULE Memo --------------------------------
(***************************************************************************)
(* C33: functions that remember.  Two tables, three functions each keeping *)
(* its answers in one of them; a function is <<table, kind>>: kind 1 gives *)
(* 10 x + y + bias, kind 2 adds one to its own answer for x - 1, down to   *)
(* y + bias; both refuse a negative x.  The bias of the world can change.  *)
(* Operations <<code, a, b, c>>:                                           *)
(*   1  function a is asked for (b, c)      2  table a is emptied          *)
(*   3  table a forgets (b, c)              4  table a is told that (b, c) *)
(*                                             has the answer 1000         *)
(*   5  function a becomes a copy of b      6  function a is made anew for *)
(*                                             table b with kind c         *)
(*   7  the bias grows by a                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

MemoStart == [f |-> <<<<1, 1>>, <<1, 2>>, <<2, 2>>>>, t |-> <<{}, {}>>, bias |-> 0, evals |-> 0, got |-> 0]
Known(t, k) == \E e \in t : e[1] = k
Value(t, k) == (CHOOSE e \in t : e[1] = k)[2]
Refused == -777
\* asking: the remembered answer, or the function's, which is then remembered; a refusal is not
RECURSIVE Ask(_, _, _)
Ask(s, f, k) ==
    LET t == s.t[f[1]] IN
    IF Known(t, k) THEN [s EXCEPT !.got = Value(t, k)]
    ELSE LET e == [s EXCEPT !.evals = @ + 1]
             Keep(u, v) == [u EXCEPT !.t[f[1]] = IF Known(@, k) THEN @ ELSE @ \cup {<<k, v>>}, !.got = v]
         IN  IF k[1] < 0 THEN [e EXCEPT !.got = Refused]
             ELSE IF f[2] = 1 THEN Keep(e, 10 * k[1] + k[2] + s.bias)
             ELSE IF k[1] = 0 THEN Keep(e, k[2] + s.bias)
             ELSE LET u == Ask(e, f, <<k[1] - 1, k[2]>>) IN Keep(u, u.got + 1)
MemoStep(s, op) ==
    CASE op[1] = 1 -> Ask(s, s.f[op[2]], <<op[3], op[4]>>)
      [] op[1] = 2 -> [s EXCEPT !.t[op[2]] = {}, !.got = 0]
      [] op[1] = 3 -> [s EXCEPT !.t[op[2]] = {e \in @ : e[1] # <<op[3], op[4]>>}, !.got = 0]
      [] op[1] = 4 -> [s EXCEPT !.t[op[2]] = {e \in @ : e[1] # <<op[3], op[4]>>} \cup {<<<<op[3], op[4]>>, 1000>>}, !.got = 0]
      [] op[1] = 5 -> [s EXCEPT !.f[op[2]] = s.f[op[3]], !.got = 0]
      [] op[1] = 6 -> [s EXCEPT !.f[op[2]] = <<op[3], op[4]>>, !.got = 0]
      [] op[1] = 7 -> [s EXCEPT !.bias = @ + op[2], !.got = 0]
\* seen after each step: the answer, how often a function was really evaluated, the sizes of the tables
Seen(s) == <<s.got, s.evals, Cardinality(s.t[1]), Cardinality(s.t[2])>>
Content(t) == t
RECURSIVE MemoRun(_, _, _, _)
MemoRun(s, ops, r, k) ==
    IF k > Len(ops) THEN \* at the end the tables hold what they were told, and nothing else
         /\ {<<<<e[1], e[2]>>, e[3]>> : e \in {r[k][1][i] : i \in 1..Len(r[k][1])}} = s.t[1]
         /\ {<<<<e[1], e[2]>>, e[3]>> : e \in {r[k][2][i] : i \in 1..Len(r[k][2])}} = s.t[2]
    ELSE LET u == MemoStep(s, ops[k]) IN r[k] = Seen(u) /\ MemoRun(u, ops, r, k + 1)
MemoAccepts(rec) == Len(rec.r) = Len(rec.a[1]) + 1 /\ MemoRun(MemoStart, rec.a[1], rec.r, 1)
=============================================================================
