---- MODULE MC_Distributional ----
(* Design check of the projection: it conserves mass, puts it only on the two neighbours of the
   (clamped) point, and preserves the mean of points inside the support.  Every state is one point
   and support, also replayed on the real learner as a certain next return after a terminal step. *)
EXTENDS Distributional, TLC, Json
CONSTANT Deep
VARIABLES c, z
vars == <<c, z>>
Supports == {[N |-> n, zmin |-> lo * Unit, gap |-> (g * Unit) \div 4] : n \in 2..(IF Deep THEN 6 ELSE 4), lo \in -3..1, g \in {1, 2, 4, 8}}
Init == c \in Supports /\ z \in {(k * Unit) \div (IF Deep THEN 16 ELSE 8) : k \in -40..40}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
P == [i \in 1..c.N |-> Share(c, z, i)]
Mass == Abs(SumSeq(P) - Unit) <= 2
Neighbours == \A i \in 1..c.N : P[i] > 0 => Abs(Atom(c, i) - Clip(z, c.zmin, ZMax(c))) < c.gap
Nonneg == \A i \in 1..c.N : P[i] >= 0
MeanKept == (z >= c.zmin /\ z <= ZMax(c)) => Abs(SumSeq([i \in 1..c.N |-> Mul(Atom(c, i), P[i])]) - z) <= 4
Ends == /\ z >= ZMax(c) => P[c.N] = Unit
        /\ z <= c.zmin => P[1] = Unit
Emit == PrintT("GEN " \o ToJson([N |-> c.N, zmin |-> (c.zmin * 8) \div Unit, gap |-> (c.gap * 8) \div Unit, z |-> (z * 8) \div Unit]))
====
