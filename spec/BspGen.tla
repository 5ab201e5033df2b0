---- MODULE BspGen ----
(* every history of K insertions of directed segments of a grid into the tree *)
EXTENDS Bsp, TLC, TLCExt, IOUtils
CONSTANTS K, M
VARIABLES hist
G == (0..M) \X (0..M)
Segs == {<<a, b>> \in G \X G : a # b}
Init == hist = << >>
Next == Len(hist) < K /\ \E s \in Segs : hist' = Append(hist, s)
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = K => Serialize(ToString(hist) \o "\n", IOEnv.BEH,
            [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
====
