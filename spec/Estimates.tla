---- MODULE Estimates ----
(* What a target policy would have earned, from data logged by another one.

   A step x: a (the logged action, 0 when it is none of the candidates), pi (target policy), p (logged propensity),
   r (logged reward), mr (modelled rewards), mrl (modelled reward of the logged action), mv (modelled values).
   An episode is a sequence of steps, E a sequence of episodes, g the discount in eighths. *)
EXTENDS FixMath, FiniteSets, TLC
Mean(f) == SumSeq(f) \div Len(f)
Disc(x, g, k) == IF k = 0 THEN x ELSE Frac(x, g ^ k, 8 ^ k)
RECURSIVE Flat(_, _)
Flat(E, i) == IF i = 0 THEN <<>> ELSE Flat(E, i - 1) \o E[i]
Steps(E) == Flat(E, Len(E))
Root(x) == IF x < 1000000 THEN Sqrt(x) ELSE 8 * Isqrt((x \div 64) * Unit)
Var(f) == LET m == Mean(f) IN Mean([i \in 1..Len(f) |-> Mul(f[i] - m, f[i] - m)])
(* ---- one step at a time ---- *)
Weight(x) == IF x.a = 0 THEN 0 ELSE Div(x.pi[x.a], x.p)
Expect(x, f) == SumSeq([k \in 1..Len(f) |-> Mul(f[k], x.pi[k])])
Direct(x) == Expect(x, x.mr)
Inverse(x) == Mul(x.r, Weight(x))
Doubly(x) == Mul(x.r - x.mrl, Weight(x)) + Direct(x)
(* ---- an episode, backwards ---- *)
V(x) == Expect(x, x.mv)
Q(x) == IF x.a = 0 THEN 0 ELSE x.mv[x.a]
RECURSIVE Recur(_, _, _)
Recur(e, t, g) == IF t > Len(e) THEN 0 ELSE V(e[t]) + Mul(e[t].r + Disc(Recur(e, t + 1, g), g, 1) - Q(e[t]), Weight(e[t]))
RECURSIVE RecurTol(_, _, _)
RecurTol(e, t, g) == IF t > Len(e) THEN 0
                     ELSE 8 + ((1 + Weight(e[t]) \div Unit) * (4 + RecurTol(e, t + 1, g))) + Abs(e[t].r + Disc(Recur(e, t + 1, g), g, 1) - Q(e[t])) \div Unit
Return(e, g) == SumSeq([t \in 1..Len(e) |-> Disc(e[t].r, g, t - 1)])
(* ---- all episodes, step by step ----
   propensities are such that weights are quarters: their products are exact as integers over 4^t *)
Quarters(x) == IF x.a = 0 THEN 0 ELSE (4 * x.pi[x.a]) \div x.p
RECURSIVE Cum(_, _)
Cum(e, t) == IF t = 0 THEN 1 ELSE IF t > Len(e) THEN 0 ELSE Cum(e, t - 1) * Quarters(e[t])
Longest(E) == SMax({Len(E[i]) : i \in 1..Len(E)})
(* cfg of the weighting: norm (weights sum to one over the episodes), still (what becomes of a step no episode could have reached) *)
W(E, i, t, norm, still) ==
  IF t = 0 THEN Unit \div Len(E)
  ELSE LET z == SumSeq([j \in 1..Len(E) |-> Cum(E[j], t)]) IN
       IF ~norm THEN Frac(Unit, Cum(E[i], t), Len(E) * (4 ^ t))
       ELSE IF z = 0 THEN (IF still THEN Unit \div Len(E) ELSE 0)
       ELSE Frac(Unit, Cum(E[i], t), z)
At(e, t, f(_)) == IF t <= Len(e) THEN f(e[t]) ELSE 0
(* the share of episode i in the return that trusts the log for j steps and the model from there *)
Share(E, i, j, g, norm, still) ==
  LET last == Min2(j, Longest(E))  e == E[i]  R(x) == x.r IN
  SumSeq([t \in 1..last |-> Disc(Mul(At(e, t, R) - At(e, t, Q), W(E, i, t, norm, still)) + Mul(At(e, t, V), W(E, i, t - 1, norm, still)), g, t - 1)])
  + (IF last < Longest(E) THEN Disc(Mul(At(e, last + 1, V), W(E, i, last, norm, still)), g, last) ELSE 0)
Shares(E, j, g, norm, still) == [i \in 1..Len(E) |-> Share(E, i, j, g, norm, still)]
StepReturn(E, j, g, norm, still) == SumSeq(Shares(E, j, g, norm, still))
Forever == 1000
(* ---- the mixture of the fully logged and the fully modelled return that errs least ---- *)
Subsets(n) == Max2(1, Min2(n \div 2, 25))
Part(E, k) == LET n == Len(E)  s == Subsets(n) IN SubSeq(E, (((k - 1) * n) \div s) + 1, (k * n) \div s)
TQ(df) == CASE df = 1 -> 51722 [] df = 2 -> 23921 [] df = 3 -> 19279 [] df = 4 -> 17464 [] OTHER -> 16500   \* 95% quantiles of Student's t
Bounds(E, g, norm, still) ==
  LET s == Subsets(Len(E))
      f == [k \in 1..s |-> StepReturn(Part(E, k), Forever, g, norm, still)]
      m == Mean(f)
      sd == Root(SumSeq([k \in 1..s |-> Mul(f[k] - m, f[k] - m)]) \div (s - 1))
      h == Mul(Div(sd, Root(s * Unit)), TQ(s - 1))
  IN <<m - h, m + h>>
Bias(v, b) == IF v < b[1] THEN b[1] - v ELSE IF v > b[2] THEN v - b[2] ELSE 0
Cov(f, h) == LET a == Mean(f)  b == Mean(h) IN SumSeq([i \in 1..Len(f) |-> Mul(f[i] - a, h[i] - b)]) \div (Len(f) - 1)
(* error of giving the logged return x (fixed point) *)
Loss(x, L, B) ==
  LET y == Unit - x  m == Mul(B[1], x) + Mul(B[2], y) IN
  Mul(Mul(L[1], x), x) + 2 * Mul(Mul(L[2], x), y) + Mul(Mul(L[3], y), y) + Mul(m, m)
====
