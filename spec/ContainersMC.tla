------------------------------ MODULE ContainersMC ------------------------------
(* all histories of a given depth; nothing that was not named as moved from or assigned to changes *)
EXTENDS Containers, IOUtils, TLC
CONSTANTS Depth, Emitting, Codes
VARIABLES val, hist
Init == val = Begin /\ hist = <<>>
Ops == {op \in (({K_COPY, K_MOVE, K_MAKE, K_TAKE, K_CROSS} \X (1..6) \X (1..6) \X {0})
          \cup ({K_PUSH} \X Seqs \X {0} \X {5}) \cup ({K_POP} \X Seqs \X {0} \X {0}) \cup ({K_LIST} \X {1, 3} \X (0..8) \X {3, 4})
          \cup ({K_PUT} \X Seqs \X {1} \X {5})
          \cup ({K_SETOUTER, K_ADDHOLE} \X Holed \X (1..2) \X (0..2)) \cup ({K_OUTER} \X Holed \X {1} \X (0..1)) \cup ({K_FULL} \X Holed \X {2} \X (0..3))
          \cup ({K_GETOUTER} \X (1..2) \X Holed \X {0}) \cup ({K_DROPHOLE} \X Holed \X {0} \X {0}) \cup ({K_GROW} \X Holed \X {0} \X {4})
          \cup ({K_GETHOLE} \X {2} \X Holed \X {1})) : op[1] \in Codes}
Next == Len(hist) < Depth /\ \E op \in Ops : Enabled(val, op) /\ val' = After(val, op) /\ hist' = Append(hist, op)
Spec == Init /\ [][Next]_<<val, hist>>
SeqTyped(s) == \A k \in 1..Len(s) : s[k] \in 1..5
Typed == \A g \in 1..6 : IF g \in Seqs THEN SeqTyped(val[g]) ELSE SeqTyped(val[g].o) /\ \A k \in 1..Len(val[g].h) : SeqTyped(val[g].h[k])
RECURSIVE Prefix(_)
Prefix(n) == IF n = 0 THEN Begin ELSE After(Prefix(n - 1), hist[n])
Replayed == val = Prefix(Len(hist)) /\ HistOK(hist, [n \in 1..(Len(hist) + 1) |-> View(Prefix(n - 1))])
\* frame condition: an operation changes only what it names
Framed == [][\A g \in 1..6 : g \notin Named(hist'[Len(hist')]) => val'[g] = val[g]]_<<val, hist>>
Moved == [][LET op == hist'[Len(hist')] IN op[1] \in {K_MOVE, K_TAKE} => val'[op[2]] = val[op[3]] /\ val'[op[3]] = Empty(op[3])]_<<val, hist>>
\* every ring has as many border segments as corners, each corner starts one and ends one
RingClosed(s) == LET e == RingSegs(s) IN Len(e) = Len(s) /\ \A c \in 1..5 : Cardinality({k \in 1..Len(e) : e[k][1] = c}) = Cardinality({k \in 1..Len(e) : e[k][2] = c})
Closed == \A g \in Holed : RingClosed(val[g].o) /\ \A k \in 1..Len(val[g].h) : RingClosed(val[g].h[k])
Emit == Emitting /\ Len(hist) = Depth => Serialize(ToString([k \in 1..(4 * Depth) |-> hist[(k + 3) \div 4][1 + ((k - 1) % 4)]]) \o "\n", IOEnv.BEH,
            [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
