---- MODULE HashGridMC ----
(***************************************************************************)
(* Every history of at most K operations on a 2 x 2 hashed store; each     *)
(* complete history is written out and replayed on the real hash_grid_2d.  *)
(***************************************************************************)
EXTENDS Grids, TLC, TLCExt, IOUtils
CONSTANT K
VARIABLES st, hist
Cell == {<<0, 0>>, <<0, 1>>, <<1, 0>>}
Ops(k) == {<<H_GET, c[1], c[2], k>> : c \in Cell} \cup {<<H_FIND, c[1], c[2], 0>> : c \in {<<0, 0>>, <<0, 1>>}}
          \cup {<<H_ERASE, c[1], c[2], 0>> : c \in {<<0, 0>>, <<1, 0>>}} \cup {<<H_CLEAR, 0, 0, 0>>, <<H_MOVE, 0, 0, 0>>, <<H_ASSIGN, 0, 0, 0>>}
Init == st = {} /\ hist = << >>
Next == /\ Len(hist) < K
        /\ \E op \in Ops(Len(hist) + 1) : st' = HStep(st, op).st /\ hist' = Append(hist, op)
Spec == Init /\ [][Next]_<<st, hist>>
Functional == \A e, f \in st : e[1] = f[1] => e = f
\* an independent reading of the same history: the last operation on the cell decides
LastOn(c) == {k \in 1..Len(hist) : (hist[k][1] \in {H_GET, H_ERASE} /\ <<hist[k][2], hist[k][3]>> = c) \/ hist[k][1] = H_CLEAR}
ByHistory == \A c \in Cell : HVal(st, c) = (IF LastOn(c) = {} THEN -1
                                            ELSE LET k == SetMax(LastOn(c)) IN IF hist[k][1] = H_GET THEN hist[k][4] ELSE -1)
FindIsPure == \A c \in Cell : HStep(st, <<H_FIND, c[1], c[2], 0>>).st = st
Emit == Len(hist) = K => Serialize(ToString(hist) \o "\n", IOEnv.BEH,
            [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
====
