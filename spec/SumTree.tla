------------------------------- MODULE SumTree -------------------------------
(* Priorities of n cells.  Property level: p is a function 0..n-1 -> Nat; a draw q in [0, total)
   belongs to the cell whose cumulative interval contains it.  Tree level: complete binary tree of
   partial sums, shaped like reagent/replay_memory/sum_tree.py.                               *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Cum(_, _)
Cum(p, k) == IF k = 0 THEN 0 ELSE p[k-1] + Cum(p, k - 1)      \* sum of cells 0..k-1
Total(p, n) == Cum(p, n)
(* cell whose interval [Cum(k), Cum(k+1)) contains num/den * total *)
CellOf(p, n, num, den) ==
  CHOOSE k \in 0..n-1 : Cum(p, k) * den <= num * Total(p, n) /\ num * Total(p, n) < Cum(p, k + 1) * den
(* cells whose interval meets the slice [j/b, (j+1)/b] of the total *)
Slice(p, n, j, b) ==
  {k \in 0..n-1 : p[k] > 0 /\ Cum(p, k) * b <= (j + 1) * Total(p, n) /\ j * Total(p, n) <= Cum(p, k + 1) * b}

-----------------------------------------------------------------------------
(* Tree level: tree[d] is level d (1 = root) as a function from 0. *)
RECURSIVE Depth(_)
Depth(n) == IF n <= 1 THEN 0 ELSE 1 + Depth((n + 1) \div 2)
RECURSIVE Two(_)
Two(k) == IF k = 0 THEN 1 ELSE 2 * Two(k - 1)
TreeInit(n) == [d \in 1..Depth(n)+1 |-> [i \in 0..Two(d-1)-1 |-> 0]]
TreeSet(tree, n, i, v) ==
  LET D == Depth(n) + 1
      delta == v - tree[D][i]
  IN [d \in 1..D |-> [tree[d] EXCEPT ![i \div Two(D - d)] = @ + delta]]
RECURSIVE Descend(_, _, _, _)
Descend(tree, d, i, q) ==
  IF d = Len(tree) THEN i
  ELSE LET lft == tree[d+1][2*i] IN
       IF q < lft THEN Descend(tree, d + 1, 2*i, q) ELSE Descend(tree, d + 1, 2*i + 1, q - lft)
=============================================================================
