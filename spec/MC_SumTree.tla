----------------------------- MODULE MC_SumTree -----------------------------
EXTENDS SumTree, TLC, Json
CONSTANTS MaxN, MaxV, MaxOps
VARIABLES n, p, tree, ops
vars == <<n, p, tree, ops>>
Init == /\ n \in 1..MaxN /\ p = [i \in 0..n-1 |-> 0] /\ tree = TreeInit(n) /\ ops = <<>>
Set(i, v) == /\ Len(ops) < MaxOps /\ p' = [p EXCEPT ![i] = v] /\ tree' = TreeSet(tree, n, i, v)
             /\ ops' = Append(ops, <<i, v>>) /\ UNCHANGED n
Next == \E i \in 0..n-1, v \in 0..MaxV : Set(i, v)
Spec == Init /\ [][Next]_vars
LeavesAreLastSet == \A i \in 0..n-1 : tree[Len(tree)][i] = p[i]
RootIsTotal == tree[1][0] = Total(p, n)
DescentFindsInterval == \A q \in 0..Total(p, n)-1 : Descend(tree, 1, 0, q) = CellOf(p, n, q, Total(p, n))
NeverZeroCell == \A q \in 0..Total(p, n)-1 : p[Descend(tree, 1, 0, q)] > 0
Emit == Len(ops) = MaxOps => PrintT("GEN " \o ToJson([n |-> n, ops |-> ops]))
=============================================================================
