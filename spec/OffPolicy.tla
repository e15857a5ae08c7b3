---- MODULE OffPolicy ----
(* The library of off-policy estimators: one-shot decisions (bandits), whole episodes, small tables of states. *)
EXTENDS FixMath, FiniteSets, TLC
Mean(f) == SumSeq(f) \div Len(f)
Disc(x, g, k) == IF k = 0 THEN x ELSE Frac(x, g ^ k, 8 ^ k)
(* ---- decisions.  A sample x: a (0: none of the candidates), r, lp and tp (logging and target probabilities), q (modelled rewards), qa (that of the logged action) ---- *)
Raw(x, k) == IF x.lp[k] = 0 THEN 0 ELSE Div(x.tp[k], x.lp[k])
Weight(x, k, c) == Clip(Raw(x, k), c.lo, c.hi)
Own(x, c) == IF x.a = 0 THEN 0 ELSE Weight(x, x.a, c)
Direct(x) == SumSeq([k \in 1..Len(x.q) |-> Mul(x.q[k], x.tp[k])])
Inverse(x, c) == Mul(x.r, Own(x, c))
Doubly(x, c) == Mul(x.r - x.qa, Own(x, c)) + Direct(x)
(* trust the log where weights are small, the model elsewhere *)
Modelled(x, c, th) == SumSeq([k \in 1..Len(x.q) |-> IF Weight(x, k, c) > th THEN Mul(x.q[k], x.tp[k]) ELSE 0])
Switch(x, c, th) == (IF x.a # 0 /\ Own(x, c) <= th THEN Inverse(x, c) ELSE 0) + Modelled(x, c, th)
SwitchDR(x, c, th) == (IF x.a # 0 /\ Own(x, c) <= th THEN Mul(x.r - x.qa, Own(x, c)) ELSE 0) + Direct(x)
(* where to switch: of some thresholds between the smallest and the largest weight, that with the least estimated error *)
Weights(S, c) == UNION {{Weight(S[i], k, c) : k \in 1..Len(S[i].q)} : i \in 1..Len(S)}
Cuts(S, c, n) == LET lo == SMin(Weights(S, c))  hi == SMax(Weights(S, c)) IN [j \in 1..n |-> lo + Frac(hi - lo, 2 ^ (j - 1), 2 ^ (n - 1))]
Top(S, rmax) == IF rmax # 0 THEN rmax ELSE SMax({Max2(S[i].r, MaxSeq(S[i].q)) : i \in 1..Len(S)})
Error(S, c, th, rmax, v(_, _, _)) ==
  LET f == [i \in 1..Len(S) |-> v(S[i], c, th)]  m == Mean(f)
      bias == Mean([i \in 1..Len(S) |-> SumSeq([k \in 1..Len(S[i].q) |-> IF Weight(S[i], k, c) > th THEN Mul(rmax, S[i].tp[k]) ELSE 0])])
  IN SumSeq([i \in 1..Len(S) |-> Mul(f[i] - m, f[i] - m)]) \div (Len(S) * Len(S)) + Mul(bias, bias)
(* ---- episodes of steps: s, a (0 when unknown), p (logged propensity), r; pi is the target policy's table, g the discount in eighths.
   Weights are quarters, their products are exact integers over 4^t. ---- *)
Known(x) == x.a # 0 /\ x.p # 0
Quarters(x, pi) == IF Known(x) THEN (4 * pi[x.s][x.a]) \div x.p ELSE 4
RECURSIVE Cum(_, _, _)
Cum(e, t, pi) == IF t = 0 THEN 1 ELSE Cum(e, t - 1, pi) * Quarters(e[t], pi)
Longest(E) == SMax({Len(E[i]) : i \in 1..Len(E)})
Live(e, t) == t <= Len(e) /\ Known(e[t])
Gross(e, t, pi) == IF Live(e, t) THEN Cum(e, t, pi) ELSE 0
(* c.weighted: weights of a step sum to one over the episodes; otherwise they are averaged over the episodes that have that step *)
W(E, i, t, c) ==
  IF t = 0 THEN Unit \div Len(E)
  ELSE LET z == SumSeq([j \in 1..Len(E) |-> Gross(E[j], t, c.pi)])  m == Cardinality({j \in 1..Len(E) : Live(E[j], t)})
           w == IF c.weighted THEN (IF z = 0 THEN 0 ELSE Frac(Unit, Gross(E[i], t, c.pi), z))
                ELSE IF m = 0 THEN 0 ELSE Frac(Unit, Gross(E[i], t, c.pi), m * (4 ^ t))
       IN Clip(w, c.lo, c.hi)
Sums(E, g, f(_, _)) == SumSeq([t \in 1..Longest(E) |-> Disc(SumSeq([i \in 1..Len(E) |-> IF t <= Len(E[i]) THEN f(i, t) ELSE 0]), g, t - 1)])
Sampling(E, c) == Sums(E, c.g, LAMBDA i, t : Mul(W(E, i, t, c), E[i][t].r))
Correct(E, c, V, Q) == Sums(E, c.g, LAMBDA i, t : LET x == E[i][t] IN IF x.a = 0 THEN 0 ELSE Mul(W(E, i, t, c), x.r - Q[x.s][x.a]) + Mul(W(E, i, t - 1, c), V[x.s]))
Return(e, g) == SumSeq([t \in 1..Len(e) |-> Disc(e[t].r, g, t - 1)])
Logged(E, g) == Mean([i \in 1..Len(E) |-> Return(E[i], g)])
Starts(E, V) == Mean([i \in 1..Len(E) |-> V[E[i][1].s]])
(* ---- tables.  P[s][a] is a sequence of outcomes [n, p, r]; states beyond Len(P) are final ---- *)
Worth(V, s) == IF s > Len(V) THEN 0 ELSE V[s]
ActionValue(P, V, g, s, a) == SumSeq([k \in 1..Len(P[s][a]) |-> LET o == P[s][a][k] IN Mul(o.r + Disc(Worth(V, o.n), g, 1), o.p)])
StateValue(P, V, pi, g, s) == SumSeq([a \in 1..Len(P[s]) |-> Mul(ActionValue(P, V, g, s, a), pi[s][a])])
RECURSIVE Sweep(_, _, _, _, _)
Sweep(P, pi, g, V, k) == IF k = 0 THEN V ELSE LET N == TLCEval([s \in 1..Len(P) |-> StateValue(P, V, pi, g, s)]) IN IF N = V THEN V ELSE Sweep(P, pi, g, N, k - 1)
(* returns that follow the visits of an episode; key tells what is visited *)
RECURSIVE Rest(_, _, _)
Rest(e, t, g) == IF t > Len(e) THEN 0 ELSE e[t].r + Disc(Rest(e, t + 1, g), g, 1)
Visits(e, key(_), k, once) == {t \in 1..Len(e) : key(e[t]) = k /\ (once => \A u \in 1..(t - 1) : key(e[u]) # k)}
RECURSIVE AddUp(_, _)
AddUp(X, f) == IF X = {} THEN 0 ELSE LET x == CHOOSE x \in X : TRUE IN f[x] + AddUp(X \ {x}, f)
(* <<sum, count>> of the returns after the visits of k in episode e *)
Tally(e, key(_), k, once, g) == LET v == Visits(e, key, k, once) IN <<AddUp(v, [t \in 1..Len(e) |-> Rest(e, t, g)]), Cardinality(v)>>
====
