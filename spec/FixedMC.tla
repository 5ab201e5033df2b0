------------------------------ MODULE FixedMC ------------------------------
(***************************************************************************)
(* The two-register machine of small fixed-point kinds, explored; its      *)
(* histories are run on the real numbers.                                  *)
(***************************************************************************)
EXTENDS Fixed, TLC, IOUtils
CONSTANTS K, Kinds, Amounts
\* number of the kind in the driver, then the kind
MCKinds == {<<1, <<10, 2, 0, -2147483647, 2147483647, 0>>>>, <<2, <<10, 1, 0, -2147483647, 2147483647, 1>>>>,
            <<3, <<2, 3, 1, -2147483647, 2147483647, 0>>>>, <<4, <<10, 3, 0, -2147483647, 2147483647, 0>>>>,
            <<5, <<2, 4, 1, -2147483647, 2147483647, 0>>>>, <<6, <<10, 2, 0, -32768, 32767, 0>>>>, <<7, <<2, 2, 1, -32768, 32767, 1>>>>,
            <<8, <<10, 1, 0, -2147483647, 2147483647, 2>>>>, <<9, <<2, 1, 1, -2147483647, 2147483647, 3>>>>}
MCAmounts == {<<2, 1>>, <<-1, 2>>, <<5, 8>>, <<-7, 3>>, <<30, 1>>}
\* only where the format is narrow
Wide(k) == IF k \in {6, 7} THEN {<<500, 1>>} ELSE {}
Small(v) == Abs(v) <= 45000
VARIABLES kd, s, hist
vars == <<kd, s, hist>>
Kind == kd[2]
Init == kd \in Kinds /\ s = <<0, 0>> /\ hist = <<>>
Ops == {<<c, a[1], a[2]>> : c \in {1, 2, 12, 14, 16, 17}, a \in Amounts \cup Wide(kd[1])} \cup {<<c, 0, 1>> : c \in {3, 4, 5, 6, 7, 8, 9, 10, 11, 18, 20}}
Next == Len(hist) < K /\ Small(s[1]) /\ Small(s[2]) /\ \E op \in Ops : /\ (hist = <<>> => op[1] = 1) /\ (Len(hist) = 1 => op[1] \in {2, 11})
                                         /\ Allowed(Kind, s, op) /\ s' = FixStep(Kind, s, op) /\ hist' = Append(hist, op) /\ UNCHANGED kd
Spec == Init /\ [][Next]_vars
InFormat == Fits(Kind, s[1]) /\ Fits(Kind, s[2])
\* what goes up comes down: adding and taking away, doubling the sign
Undo == /\ Allowed(Kind, s, <<3, 0, 1>>) => FixStep(Kind, FixStep(Kind, s, <<3, 0, 1>>), <<4, 0, 1>>) = s
        /\ FixStep(Kind, FixStep(Kind, s, <<7, 0, 1>>), <<7, 0, 1>>) = s
\* products and quotients are off by less than one unit in the last place
ProductClose == Small(s[1]) /\ Small(s[2]) => Abs(s[1] * s[2] - Scale(Kind) * Times(Kind, s[1], s[2])) < Scale(Kind)
QuotientClose == Small(s[1]) /\ Small(s[2]) /\ s[2] # 0 => Abs(s[1] * Scale(Kind) - s[2] * Over(Kind, s[1], s[2])) < Abs(s[2])
\* rounding: exact stays, never off by a unit, nearest is nearest, order is kept
RoundingOK == Small(s[1]) => \A n \in (s[1] - 9)..(s[1] + 9), d \in 1..4, how \in 0..3 :
    LET r == Round(how, n, d)
    IN  /\ n % d = 0 => r = n \div d
        /\ Abs(r * d - n) < d
        /\ how = 0 => 2 * Abs(r * d - n) <= d /\ Round(0, -n, d) = -r
        /\ how = 1 => Abs(r) * d <= Abs(n)
        /\ r <= Round(how, n + 1, d)
Emit == (Len(hist) = K \/ (hist # <<>> /\ ~(Small(s[1]) /\ Small(s[2])))) => Serialize(ToString(<<kd[1], hist>>) \o "\n", IOEnv.BEH,
            [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
