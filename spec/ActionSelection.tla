-------------------------- MODULE ActionSelection --------------------------
(* Scores are exponents: action i has score k[i] * ln 2 * temperature, so that softmax
   probabilities are rationals 2^k[i] / SUM 2^k[j].  mask[i] = 1: possible (<<>>: all are).
   Probabilities are numerators over a denominator. *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Pow2(_)
Pow2(k) == IF k <= 0 THEN 1 ELSE 2 * Pow2(k - 1)
RECURSIVE SumF(_, _)
SumF(f, i) == IF i = 0 THEN 0 ELSE f[i] + SumF(f, i - 1)
SumSeq(f) == SumF(f, Len(f))

Allowed(k, mask) == {i \in 1..Len(k) : mask = <<>> \/ mask[i] = 1}
SoftNum(k, mask) == [i \in 1..Len(k) |-> IF i \in Allowed(k, mask) THEN Pow2(k[i]) ELSE 0]
SoftDen(k, mask) == SumSeq(SoftNum(k, mask))
Best(k, mask) == {i \in Allowed(k, mask) : \A j \in Allowed(k, mask) : k[j] <= k[i]}

(* exploration rate e/den: one greedy action g; uniform over the possible actions *)
EpsNum(k, mask, g, e, den) ==
  LET n == Cardinality(Allowed(k, mask))
  IN [i \in 1..Len(k) |-> (IF i \in Allowed(k, mask) THEN e ELSE 0) + (IF i = g THEN n * (den - e) ELSE 0)]
EpsDen(k, mask, den) == Cardinality(Allowed(k, mask)) * den
(* decay by dn/2^ds, never below the minimum; all in units of 1/den *)
EpsNext(e, dn, dd, min) == LET x == (e * dn) \div dd IN IF x < min THEN min ELSE x

(* the k highest scores, in order *)
RECURSIVE TopScores(_, _, _)
TopScores(s, avail, n) ==
  IF n = 0 \/ avail = {} THEN <<>>
  ELSE LET b == CHOOSE i \in avail : \A j \in avail : s[j] <= s[i]
       IN <<s[b]>> \o TopScores(s, avail \ {b}, n - 1)
=============================================================================
