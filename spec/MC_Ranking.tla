---- MODULE MC_Ranking ----
(* Laws of ranking probabilities on small score vectors, and the warm-up/interval machine of the learner. *)
EXTENDS Ranking, TLC
CONSTANTS MaxK
Vals == {0, Unit, 0 - 2 * Unit}
Perms(n, t) == {a \in [1..t -> 1..n] : Distinct(a)}
RECURSIVE SumP(_, _)
SumP(x, P) == IF P = {} THEN 0 ELSE LET a == CHOOSE y \in P : TRUE IN Exp(LogProb(x, a)) + SumP(x, P \ {a})
ASSUME \A x \in [1..3 -> Vals] : \A t \in 1..3 : Abs(SumP(x, Perms(3, t)) - Unit) <= 24
(* a prefix has the probability of all its completions; ranks past upto do not matter *)
ASSUME \A x \in [1..3 -> Vals] : \A a \in Perms(3, 3) : \A t \in 1..3 : LogProbFull(x, a, t) = LogProb(x, SubSeq(a, 1, t))
(* the greedy ranking takes the largest share at every rank *)
ASSUME \A x \in [1..3 -> Vals] : \A a \in Perms(3, 2) : Greedy(x, a, 0) => \A k \in 1..2 : \A j \in Remaining(x, a, k) : Share(x, a, k)[a[k]] >= Share(x, a, k)[j]
(* directions of a ranking's log-probability add up to zero *)
ASSUME \A x \in [1..3 -> Vals] : \A a \in Perms(3, 2) : Abs(SumSeq(DLog(x, a))) <= 8
(* the distance of a ranking is zero only for the given order and counts exchanges *)
ASSUME \A a \in Perms(4, 3) : (Swaps(a) = 0 <=> a = [i \in 1..3 |-> i]) /\ Swaps(a) >= 0 /\ Swaps(a) <= 6
VARIABLES k, acc, fired, c
vars == <<k, acc, fired, c>>
Init == k = 0 /\ acc = 0 /\ fired = 0 /\ c \in [base: BOOLEAN, warm: 0..4, interval: 1..3, algo: {"rl"}]
Next == k < MaxK /\ k' = k + 1 /\ UNCHANGED c
        /\ LET n == acc + (IF Trains(c, k + 1) THEN 1 ELSE 0)
               fire == Trains(c, k + 1) /\ (k + 1) % c.interval = 0
           IN acc' = (IF fire THEN 0 ELSE n) /\ fired' = IF fire THEN fired + n ELSE fired
Spec == Init /\ [][Next]_vars
(* no batch is ever lost or used twice: those past the warm-up are either pending or applied *)
Conserved == fired + acc = Cardinality({j \in 1..k : Trains(c, j)})
Bounded == acc < c.interval + 1
====
