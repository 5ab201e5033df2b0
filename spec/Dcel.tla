-------------------------------- MODULE Dcel --------------------------------
(***************************************************************************)
(* C15: directed edges joined into open chains and closed rings.  State:   *)
(* the edges added so far and the sequences last computed.  No vertex has  *)
(* more than one edge in or out.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

D_ADD == 0      \* <<D_ADD, a, b>>
D_JOIN == 1     \* compute the sequences
D_COPY == 2     \* carry on with a copy
D_MOVE == 3
D_ASSIGN == 4   \* carry on with an assigned copy of it
D_TAKE == 5     \* move assigned

Sources(E) == {e[1] : e \in E}
Targets(E) == {e[2] : e \in E}
Succ(E, v) == (CHOOSE e \in E : e[1] = v)[2]
RECURSIVE Follow(_, _, _)
\* the chain from v, stopping at the end or before coming back to the start
Follow(E, s, v) == IF v \notin Sources(E) \/ Succ(E, v) = s THEN <<v>> ELSE <<v>> \o Follow(E, s, Succ(E, v))
Chains(E) == {Follow(E, v, v) : v \in Sources(E) \ Targets(E)}
RECURSIVE Reach(_, _)
Reach(E, S) == LET T == S \cup {e[2] : e \in {e \in E : e[1] \in S}} IN IF T = S THEN S ELSE Reach(E, T)
OnRing(E, v) == v \in Sources(E) /\ v \in Reach(E, {Succ(E, v)})
RotTo(s, k) == [i \in 1..Len(s) |-> s[((i + k - 2) % Len(s)) + 1]]
Canon(s) == LET m == CHOOSE k \in 1..Len(s) : \A j \in 1..Len(s) : s[k] <= s[j] IN RotTo(s, m)
Rings(E) == {Canon(Follow(E, v, v)) : v \in {v \in Sources(E) : OnRing(E, v)}}
CanAdd(E, a, b) == a # b /\ a \notin Sources(E) /\ b \notin Targets(E)

DInit == [E |-> {}, chains |-> {}, rings |-> {}]
DStep(s, op) == CASE op[1] = D_ADD -> [s EXCEPT !.E = s.E \cup {<<op[2], op[3]>>}]
                  [] op[1] = D_JOIN -> [s EXCEPT !.chains = Chains(s.E), !.rings = Rings(s.E)]
                  [] OTHER -> s
AsSet(q) == {q[k] : k \in 1..Len(q)}
Shows(s, r) == /\ Len(r[1]) = Cardinality(s.chains) /\ AsSet(r[1]) = s.chains
               /\ Len(r[2]) = Cardinality(s.rings) /\ {Canon(x) : x \in AsSet(r[2])} = s.rings
RECURSIVE Replay(_, _, _, _)
Replay(s, h, r, k) == k > Len(h) \/ LET t == DStep(s, h[k]) IN Shows(t, r[k]) /\ Replay(t, h, r, k + 1)
RECURSIVE After(_, _, _)
After(s, h, k) == IF k > Len(h) THEN s ELSE After(DStep(s, h[k]), h, k + 1)
DcelAccepts(rec) == IF rec.op = "built" THEN Shows(After(DInit, rec.a, 1), rec.r)
                    ELSE Len(rec.r) = Len(rec.a) /\ Replay(DInit, rec.a, rec.r, 1)
=============================================================================
