----------------------------- MODULE AlgebraGen ----------------------------
(***************************************************************************)
(* The programs: every well-typed expression of nesting depth 1 and 2 over *)
(* the operators of the specification, as C++ source text next to its tree.*)
(***************************************************************************)
EXTENDS Algebra, TLC, TLCExt, IOUtils, Sequences, SequencesExt, Json
CONSTANT Stride        \* one expression in Stride of the deepest ones

D0 == Leaf
D1 == Deeper(D0)
D2 == Deeper(D1)
Q == "\""
Sym == [add |-> "+", sub |-> "-", mul |-> "*", div |-> "/", cross |-> "^"]
RECURSIVE Cpp(_)
Cpp(t) == IF t[1] \in {"S", "V", "P", "M"} THEN t[1] \o "(" \o ToString(t[2]) \o ")"
          ELSE IF Len(t) = 2 THEN (IF t[1] = "neg" THEN "(-" ELSE t[1] \o "(") \o Cpp(t[2]) \o ")"
          ELSE "(" \o Cpp(t[2]) \o " " \o Sym[t[1]] \o " " \o Cpp(t[3]) \o ")"
RECURSIVE Text(_)
Text(t) == IF t[1] \in {"S", "V", "P", "M"} THEN "[\\\"" \o t[1] \o "\\\"," \o ToString(t[2]) \o "]"
           ELSE IF Len(t) = 2 THEN "[\\\"" \o t[1] \o "\\\"," \o Text(t[2]) \o "]"
           ELSE "[\\\"" \o t[1] \o "\\\"," \o Text(t[2]) \o "," \o Text(t[3]) \o "]"
Line(ty, t, n, deep) == LET x == Number(t, 0)
                  IN  "CASE(" \o ToString(n) \o ", " \o ToString(deep) \o ", " \o ty \o ", " \o ToString(x[2]) \o ", " \o Q \o Text(x[1]) \o Q \o ", " \o Cpp(x[1]) \o ")\n"
Types == <<"S", "V", "P", "M">>
Shallow(ty) == SetToSeq(D1[ty] \ D0[ty])
Deep(ty) == LET s == SetToSeq(D2[ty] \ D1[ty]) IN SelectSeq([i \in 1..Len(s) |-> <<i, s[i]>>], LAMBDA p : p[1] % Stride = 0)
Emit(str) == Serialize(str, IOEnv.BEH, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0

VARIABLES ty, i, n
Init == ty = 1 /\ i = 1 /\ n = 0
S1 == [y \in 1..4 |-> Shallow(Types[y])]
S2 == [y \in 1..4 |-> Deep(Types[y])]
Total(y) == Len(S1[y]) + Len(S2[y])
Next == /\ ty <= 4
        /\ IF i <= Total(ty) THEN /\ IF i <= Len(S1[ty]) THEN Emit(Line(Types[ty], S1[ty][i], n, 0)) ELSE Emit(Line(Types[ty], S2[ty][i - Len(S1[ty])][2], n, 1))
                                  /\ i' = i + 1 /\ n' = n + 1 /\ ty' = ty
           ELSE ty' = ty + 1 /\ i' = 1 /\ n' = n
Spec == Init /\ [][Next]_<<ty, i, n>>
\* the generated programs are exactly the well-typed expressions: none ill-typed, none missing
RECURSIVE TypeOf(_)
TypeOf(t) == IF Len(t) = 1 THEN t[1]
             ELSE IF Len(t) = 2 THEN LET o == {o \in UnOps : o[1] = t[1] /\ o[2] = TypeOf(t[2])} IN IF o = {} THEN "?" ELSE (CHOOSE x \in o : TRUE)[3]
             ELSE LET o == {o \in BiOps : o[1] = t[1] /\ o[2] = TypeOf(t[2]) /\ o[3] = TypeOf(t[3])} IN IF o = {} THEN "?" ELSE (CHOOSE x \in o : TRUE)[4]
WellTyped == IF ty > 4 THEN TRUE ELSE IF i > Total(ty) THEN TRUE ELSE LET t == IF i <= Len(S1[ty]) THEN S1[ty][i] ELSE S2[ty][i - Len(S1[ty])][2] IN TypeOf(t) = Types[ty]
=============================================================================
