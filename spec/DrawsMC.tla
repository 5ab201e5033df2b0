------------------------------ MODULE DrawsMC ------------------------------
(***************************************************************************)
(* Every short history of three generators, with every choice of numbers   *)
(* consistent with the rule; the histories are run on the real generators. *)
(***************************************************************************)
EXTENDS Draws, TLC, IOUtils
CONSTANTS K, Values
VARIABLES g, known, hist
vars == <<g, known, hist>>
Makes == {<<1, k, m, s>> : k \in 1..3, m \in {1, 2}, s \in {1, 2}} \cup {<<5, k, 2, 2>> : k \in 1..3}
Copies == {op \in {<<c, k, m, 0>> : c \in {2, 6}, k \in 1..3, m \in 1..3} : op[1] = 6 \/ op[2] # op[3]}
Seeds == {<<4, k, s, 0>> : k \in 1..3, s \in {1, 2}}
Gets == {<<c, k, 2, 0>> : c \in {3, 7}, k \in 1..3}
Init == g = DrawsStart /\ known = {} /\ hist = <<>>
Next == /\ Len(hist) < K
        /\ \E op \in Makes \cup Copies \cup Seeds \cup Gets :
            /\ g' = DrawsStep(g, op) /\ hist' = Append(hist, op)
            /\ IF ~Values \/ ~IsDraw(op) THEN known' = known
               ELSE LET key == DrawKey(1, g, op)
                    IN  \E v \in 0..(key[1] - 1) : (\A p \in known : p[1] = key => p[2] = v) /\ known' = known \cup {<<key, v>>}
Spec == Init /\ [][Next]_vars
\* one number for one history, within its limit
Function == \A p, q \in known : p[1] = q[1] => p = q
Limits == \A p \in known : 0 <= p[2] /\ p[2] < p[1][1]
\* a copy draws on from where its source is, and neither moves the other
CopyApart == \A k, m \in 1..3 : LET h == DrawsStep(g, <<2, k, m, 0>>) IN
             h[k] = g[m] /\ (k # m => DrawsStep(h, <<3, k, 0, 0>>)[m] = g[m])
\* reseeding leaves nothing of the past
Fresh == \A k \in 1..3, s \in 1..2 : DrawsStep(g, <<4, k, s, 0>>)[k] = DrawsStep(g, <<1, k, g[k][1], s>>)[k]
\* colours: grey without saturation, black without value, the same hue all the way round
Colours == hist = <<>> => /\ \A a \in 0..64, c \in 0..16 : HsvRgb(a, 0, c) = <<255, Part(c, 16), Part(c, 16), Part(c, 16)>>
                          /\ \A a \in 0..64, b \in 0..16 : HsvRgb(a, b, 0) = <<255, 0, 0, 0>>
                          /\ \A b, c \in 0..16 : HsvRgb(0, b, c) = HsvRgb(64, b, c)
                          /\ \A a \in 0..64, b, c \in 0..16 : Shade(b, c, HsvRgb(a, b, c))
\* those that end with a draw
Emit == (IF ~Values /\ Len(hist) = K THEN IsDraw(hist[K]) ELSE FALSE) => Serialize(ToString(hist) \o "\n", IOEnv.BEH,
            [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
