---- MODULE Slates ----
(* Slate off-policy evaluation: drawing items without replacement slot by slot, slate metrics, and the estimators that
   judge a target policy from slates logged by another one.
   A law is a sequence of rows of whole weights, one row per slot (a policy over items repeats its row). *)
EXTENDS FixMath, Sequences, FiniteSets
Fine == 1048576                                    \* unit of probabilities
RECURSIVE Prod(_)
Prod(f) == IF Len(f) = 0 THEN 1 ELSE f[Len(f)] * Prod(SubSeq(f, 1, Len(f) - 1))
IsSlate(s, m) == (\A k \in 1..Len(s) : s[k] \in 1..m) /\ \A j, k \in 1..Len(s) : j # k => s[j] # s[k]
AllSlates(n, m) == {s \in [1..n -> 1..m] : IsSlate(s, m)}
Rest(row, s, k) == SumSeq(row) - SumSeq([j \in 1..(k - 1) |-> row[s[j]]])
(* a greedy law places the heaviest item that is left *)
Best(row, s, k) == LET left == {i \in 1..Len(row) : \A j \in 1..(k - 1) : s[j] # i} IN CHOOSE i \in left : \A j \in left : row[j] <= row[i]
Greedy(L, s) == \A k \in 1..Len(s) : s[k] = Best(L[k], s, k)
RECURSIVE Picks(_, _)
Picks(L, n) == IF n = 0 THEN <<>> ELSE LET s == Picks(L, n - 1) IN Append(s, Best(L[n], s, n))
(* exact chance of a slate, as a numerator and a denominator *)
Num(L, s) == Prod([k \in 1..Len(s) |-> L[k][s[k]]])
Den(L, s) == Prod([k \in 1..Len(s) |-> Rest(L[k], s, k)])
Odds(L, greedy, s) ==
  IF greedy THEN (IF Greedy(L, s) THEN <<1, 1>> ELSE <<0, 1>>)
  ELSE IF \E k \in 1..Len(s) : L[k][s[k]] = 0 THEN <<0, 1>> ELSE <<Num(L, s), Den(L, s)>>
Share(o) == IF o[1] < 2048 THEN (o[1] * Fine + (o[2] \div 2)) \div o[2] ELSE Frac(Fine, o[1], o[2])
Chance(L, greedy, s) == Share(Odds(L, greedy, s))
RECURSIVE SumSet(_, _)
SumSet(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumSet(f, S \ {x})
(* chance of each item at each slot *)
Expect(L, greedy, n) ==
  IF greedy THEN LET p == Picks(L, n) IN [k \in 1..n |-> [i \in 1..Len(L[1]) |-> IF p[k] = i THEN Fine ELSE 0]]
  ELSE [k \in 1..n |->
     LET S == AllSlates(k, Len(L[1]))
         ch == [s \in S |-> Chance(L, FALSE, s)]
     IN [i \in 1..Len(L[1]) |-> SumSet(ch, {s \in S : s[k] = i})]]
(* ---- metrics ---- *)
Ln2 == 5678
InvLog2(k) == Div(Ln2, Ln((k + 1) * Unit))
Gain(r) == (2 ^ r) - 1
Discounted(rs) == SumSeq([k \in 1..Len(rs) |-> Gain(rs[k]) * InvLog2(k)])
RECURSIVE Sorted(_)
Sorted(rs) == IF Len(rs) = 0 THEN <<>>
  ELSE LET b == CHOOSE i \in 1..Len(rs) : \A j \in 1..Len(rs) : rs[j] <= rs[i]
       IN <<rs[b]>> \o Sorted(SubSeq(rs, 1, b - 1) \o SubSeq(rs, b + 1, Len(rs)))
Ideal(all, n) == Discounted(SubSeq(Sorted(all), 1, n))
RECURSIVE Pass(_, _, _)
Stop(r, top) == Frac(Unit, Gain(Min2(r, top)), 2 ^ top)         \* chance to stop at an item of relevance r
Pass(rs, top, k) == IF k = 0 THEN Unit ELSE Mul(Pass(rs, top, k - 1), Unit - Stop(rs[k], top))
Stops(rs, top) == [k \in 1..Len(rs) |-> Mul(Pass(rs, top, k - 1), Stop(rs[k], top))]
Metric(name, rs, all, top) ==
  CASE name = "sum" -> SumSeq(rs) * Unit
    [] name = "dcg" -> Discounted(rs)
    [] name = "ndcg" -> (LET z == Ideal(all, Len(rs)) IN IF z = 0 THEN 0 ELSE Div(Discounted(rs), z))
    [] name = "err" -> SumSeq([k \in 1..Len(rs) |-> Stops(rs, top)[k] \div k])
(* ---- weights made of rewards ---- *)
RECURSIVE FloorLog(_, _)
FloorLog(x, b) == IF x < b THEN 0 ELSE 1 + FloorLog(x \div b, b)
RankOf(rs, i) == 1 + Cardinality({j \in 1..Len(rs) : rs[j] > rs[i]})
(* alpha in halves: 2 ^ -floor(alpha log2 rank) *)
RankWeight(half, rank) == Unit \div (2 ^ FloorLog(rank ^ half, 4))
(* ---- estimators: a sample is [n, r, log, tgt (laws), s (logged slate), ...] ---- *)
None == 999999
Part(n, d) == IF n < 250000 /\ d < 250000 THEN Frac(Unit, n, d) ELSE Frac(Unit, n \div 16, d \div 16)
(* importance weight of one slate: <<a, b>> chances under target and logging law *)
Weight(c, a, b) ==
  IF a[1] * b[2] = b[1] * a[2] THEN Unit
  ELSE IF a[1] = 0 THEN 0
  ELSE IF b[1] = 0 THEN None
  ELSE Clip(Part(a[1] * b[2], a[2] * b[1]), c.lo, c.hi)
Along(T, s, w) == SumSeq([k \in 1..Len(s) |-> Mul(T[k][s[k]] \div 8, w[k])])
PositionWeight(c, H, P, s, w) ==
  LET nu == Along(H, s, w)  de == Along(P, s, w) IN
  IF Abs(nu - de) <= 1 THEN Unit ELSE IF nu = 0 THEN 0 ELSE IF de = 0 THEN None ELSE Clip(IF de < 250000 THEN Div(nu, de) ELSE Div(nu \div 8, de \div 8), c.lo, c.hi)
(* the projection on the expected logged indicator that the repository inverts (rank one) *)
Flat2(A, B) == SumSeq([k \in 1..Len(A) |-> SumSeq([i \in 1..Len(A[k]) |-> Mul(A[k][i] \div 128, B[k][i] \div 128)])])
ProjectionWeight(c, H, P, s) == LET z == Flat2(P, P) IN Clip(Mul(Div(Flat2(H, P), z), Div(SumSeq([k \in 1..Len(s) |-> P[k][s[k]] \div 128]), z)), c.lo, c.hi)
Average(x) == SumSeq(x) \div Len(x)
(* rewards r and weights w of the samples that have one; x: corrections *)
Kept(w) == SelectSeq([i \in 1..Len(w) |-> i], LAMBDA i : w[i] # None)
At(x, ids) == [j \in 1..Len(ids) |-> x[ids[j]]]
Estimate(weighted, tot, w) == IF weighted THEN Div(SumSeq(tot), SumSeq(w)) ELSE Average(tot)
(* model value of a policy: scores of all slates by their chance *)
ModelValue(L, greedy, n, score) ==
  IF greedy THEN score[Picks(L, n)]
  ELSE LET S == AllSlates(n, Len(L[1])) IN SumSet([s \in S |-> Frac(score[s], Chance(L, FALSE, s), Fine)], S)
====
