----------------------------- MODULE TaggedMC ------------------------------
(***************************************************************************)
(* Every short history of the four registers; run on the real numbers.     *)
(***************************************************************************)
EXTENDS Tagged, TLC, IOUtils
CONSTANTS K, Codes
VARIABLES s, hist
vars == <<s, hist>>
Ops == UNION {IF c = 1 THEN {<<1, k, n>> : k \in 1..3, n \in {40, -24, 0}}
              ELSE IF c = 16 THEN {<<16, 2, 3>>, <<16, 3, 2>>, <<16, 2, 4>>, <<16, 3, 4>>}
              ELSE IF c = 19 THEN {<<19, k, 0>> : k \in 1..3}
              ELSE IF c >= 17 THEN {<<c, k, k>> : k \in 1..3}
              ELSE {<<c, k, m>> : k \in 1..3, m \in 1..4} : c \in Codes}
Init == s = TagStart /\ hist = <<>>
Small == \A k \in 1..4 : Abs(s[k]) <= 20000
Next == /\ Len(hist) < K /\ Small
        /\ \E op \in Ops : /\ TagAllowed(s, IF op[1] = 19 THEN <<19, op[2], op[2]>> ELSE op)
                           /\ s' = TagStep(s, IF op[1] = 19 THEN <<19, op[2], op[2]>> ELSE op) /\ hist' = Append(hist, op)
Spec == Init /\ [][Next]_vars
\* the integer stays whole; adding is undone by taking away, exchanging by exchanging; an assignment leaves equals
IntWhole == s[1] % U = 0
Undone == \A k \in 2..3, m \in 1..4 : LET t == TagStep(s, <<4, k, m>>) IN k # m => TagStep(t, <<5, k, m>>) = s
Swapped == \A m \in 3..4 : TagStep(TagStep(s, <<16, 2, m>>), <<16, 2, m>>) = s
Assigned == \A k \in 2..3, m \in 1..4 : TagStep(s, <<3, k, m>>)[k] = s[m]
\* the compound form and the two-operand form agree, but where a plain real is first made whole
SameForm == Small => \A f \in 0..3, k \in 1..3, m \in 1..4 : (f = 3 => s[m] # 0) /\ (k = 1 => m # 4) => Result(s, <<4 + f, k, m>>) = Result(s, <<8 + f, k, m>>)
\* truncation never leaves the value by a whole one or crosses zero
Truncates == \A m \in 2..4 : LET t == TagStep(s, <<3, 1, m>>) IN Abs(t[1] - s[m]) < U /\ Abs(t[1]) <= Abs(s[m])
Emit == Len(hist) = K => Serialize(ToString(hist) \o "\n", IOEnv.BEH,
            [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
