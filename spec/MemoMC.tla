------------------------------- MODULE MemoMC -------------------------------
(***************************************************************************)
(* Every short history of the three functions and two tables.              *)
(***************************************************************************)
EXTENDS Memo, TLC, IOUtils
CONSTANTS K, All
VARIABLES s, hist
vars == <<s, hist>>
Keys == {<<-1, 0>>, <<0, 0>>, <<1, 0>>, <<2, 5>>}
Ops == {<<1, f, k[1], k[2]>> : f \in 1..3, k \in Keys} \cup {<<2, t, 0, 0>> : t \in 1..2}
       \cup {<<c, 1, k[1], k[2]>> : c \in {3, 4}, k \in IF All THEN Keys ELSE {<<0, 0>>, <<1, 0>>}}
       \cup {<<5, 1, 2, 0>>, <<5, 3, 1, 0>>, <<6, 1, 2, 1>>, <<6, 2, 1, 2>>, <<7, 3, 0, 0>>}
Init == s = MemoStart /\ hist = <<>>
Next == Len(hist) < K /\ \E op \in Ops : s' = MemoStep(s, op) /\ hist' = Append(hist, op)
Spec == Init /\ [][Next]_vars
\* a table has one answer for a key and none for a refused one unless told so
OneAnswer == \A t \in 1..2 : \A d, e \in s.t[t] : d[1] = e[1] => d = e
NoRefused == \A t \in 1..2 : \A e \in s.t[t] : e[1][1] < 0 => e[2] = 1000
\* asking again evaluates nothing and gives the same answer; a refusal is evaluated again
Again == \A f \in 1..3, k \in Keys : LET u == Ask(s, s.f[f], k)
                                         v == Ask(u, u.f[f], k)
                                     IN  v.got = u.got /\ (IF u.got = Refused THEN v.evals = u.evals + 1 ELSE v = u)
\* with a table of its own and an unchanged world the answer is the function's
Direct(f, k) == IF f = 1 THEN 10 * k[1] + k[2] + s.bias ELSE k[1] + k[2] + s.bias
Plain == \A f \in 1..2, k \in Keys : k[1] >= 0 => Ask([s EXCEPT !.t[1] = {}], <<1, f>>, k).got = Direct(f, k)
\* asking one function leaves the other table alone
Apart == \A f \in 1..3, k \in Keys : LET u == Ask(s, s.f[f], k) IN u.t[3 - s.f[f][1]] = s.t[3 - s.f[f][1]]
Emit == Len(hist) = K => Serialize(ToString(hist) \o "\n", IOEnv.BEH,
            [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
