---- MODULE MC_EvalData ----
(* Pages of a few rows, in every order: sorting, and values as sums against values computed backwards. *)
EXTENDS EvalData, Json
CONSTANTS N, Seqs, Mdps
VARIABLES P, step
vars == <<P, step>>
G == Unit \div 2
Rows == [mdp : Mdps, seq : Seqs]
Init == P \in [1..N -> Rows] /\ step = 0
R == [i \in 1..N |-> Unit * (P[i].seq + 2 * P[i].mdp)]
Next == step = 0 /\ step' = 1 /\ P' = Sorted(P)
Spec == Init /\ [][Next]_vars
Distinct == \A i, j \in 1..N : i # j => P[i] # P[j]
SortedIsValid == (step = 1 /\ Distinct) => Valid(P)
SameRows == step = 0 => \A x \in Rows : Cardinality({i \in 1..N : P[i] = x}) = Cardinality({i \in 1..N : Sorted(P)[i] = x})
Idempotent == step = 1 => Sorted(P) = P
BackwardsIsSum == (Valid(P)) => \A i \in 1..N : Abs(Back(P, i, R, G) - Value(P, i, R, G)) <= 3 * N
Emit == (step = 0) => PrintT("GEN " \o ToJson([rows |-> P]))
Still == FALSE /\ UNCHANGED vars
====
