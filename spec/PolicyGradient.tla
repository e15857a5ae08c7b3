---- MODULE PolicyGradient ----
(* Policy-gradient learning with a tabular softmax policy.

   theta[s][a] are the scores; an episode is tr = [s, a, r, lp, ok]: visited states, chosen actions,
   rewards, logged log-probabilities and the allowed actions of each step.  Every step's
   log-probability is weighted by the (clipped, normalised, baseline-corrected) discounted sum of
   the rewards from that step to the end of its own episode.
   c: gamma16, lr8, vlr8, temp2, clip (reward bound), norm, sub, floor (clamp at zero), base,
      off (importance weighting), rclip (its bound), eps, ent                                   *)
EXTENDS FixMath, FiniteSets
RECURSIVE RetFrom(_, _, _)
RetFrom(r, g16, t) == IF t > Len(r) THEN 0 ELSE r[t] + Frac(RetFrom(r, g16, t + 1), g16, 16)
Returns(c, tr) == LET r == [t \in 1..Len(tr.r) |-> Min2(tr.r[t], c.clip)] IN [t \in 1..Len(r) |-> RetFrom(r, c.gamma16, t)]
Mean(x) == SumSeq(x) \div Len(x)
Std(x) == LET m == Mean(x) IN Sqrt(SumSeq([i \in 1..Len(x) |-> Mul(x[i] - m, x[i] - m)]) \div (Len(x) - 1))
Whiten(x, sub) == LET m == IF sub THEN Mean(x) ELSE 0 IN
                  IF Len(x) = 1 THEN <<0>> ELSE LET d == Std(x) IN [i \in 1..Len(x) |-> Div(x[i] - m, d)]
(* reward-to-go after normalisation and flooring: also what a baseline is fitted to *)
Target(c, tr) == LET x == Returns(c, tr)
                     y == IF c.norm THEN Whiten(x, c.sub) ELSE x
                 IN [i \in 1..Len(y) |-> IF c.floor THEN Max2(y[i], 0) ELSE y[i]]
Adv(c, v, tr) == LET y == Target(c, tr) IN [i \in 1..Len(y) |-> IF c.base THEN y[i] - v[tr.s[i]] ELSE y[i]]
Logits(c, th, s) == [a \in 1..Len(th[s]) |-> Frac(th[s][a], 2, c.temp2)]
Ok(tr, i) == {a \in 1..Len(tr.ok[i]) : tr.ok[i][a] = 1}
Pi(c, th, tr, i) == SoftmaxOver(Logits(c, th, tr.s[i]), Ok(tr, i))
LogPi(c, th, tr, i) == LET x == Logits(c, th, tr.s[i])
                           top == SMax({x[a] : a \in Ok(tr, i)})
                           z == top + Ln(SumSeq([a \in 1..Len(x) |-> IF a \in Ok(tr, i) THEN Exp(x[a] - top) ELSE 0]))
                       IN [a \in 1..Len(x) |-> x[a] - z]
LogRatio(c, th, tr, i) == LogPi(c, th, tr, i)[tr.a[i]] - tr.lp[i]
(* weight of the gradient of log pi at step i *)
WReinforce(c, th, v, tr, i) ==
  LET A == Adv(c, v, tr)[i] IN
  IF ~c.off THEN A ELSE LET x == LogRatio(c, th, tr, i) IN IF x > Ln(c.rclip) THEN 0 ELSE Mul(A, Exp(x))
WPpo(c, th, v, tr, i) ==
  LET A == Adv(c, v, tr)[i]  r == Exp(LogRatio(c, th, tr, i)) IN
  IF (A >= 0 /\ r > Unit + c.eps) \/ (A < 0 /\ r < Unit - c.eps) THEN 0 ELSE Mul(A, r)
W(c, th, v, tr, i) == IF c.algo = "ppo" THEN WPpo(c, th, v, tr, i) ELSE WReinforce(c, th, v, tr, i)
(* whether the outcome hinges on a rounding of the ratio *)
Edge(c, th, v, tr) ==
  \E i \in 1..Len(tr.s) :
    IF c.algo = "ppo" THEN LET r == Exp(LogRatio(c, th, tr, i)) IN Abs(r - Unit - c.eps) < 16 \/ Abs(r - Unit + c.eps) < 16 \/ Abs(Adv(c, v, tr)[i]) < 8
    ELSE c.off /\ Abs(LogRatio(c, th, tr, i) - Ln(c.rclip)) < 16
Entropy(c, th, tr, i) == LET p == Pi(c, th, tr, i)  lp == LogPi(c, th, tr, i) IN -SumSeq([a \in 1..Len(p) |-> IF a \in Ok(tr, i) THEN Mul(p[a], lp[a]) ELSE 0])
(* direction of one episode in theta[s][a]: ascent on the objective *)
Dir(c, th, v, tr) ==
  LET T == Len(tr.s)
      w == [i \in 1..T |-> W(c, th, v, tr, i)]
      p == [i \in 1..T |-> Pi(c, th, tr, i)]
      lp == [i \in 1..T |-> LogPi(c, th, tr, i)]
      h == [i \in 1..T |-> IF c.ent # 0 THEN Entropy(c, th, tr, i) ELSE 0]
      one(i, s, a) == IF tr.s[i] # s \/ a \notin Ok(tr, i) THEN 0
        ELSE Mul(w[i], (IF tr.a[i] = a THEN Unit ELSE 0) - p[i][a])
             - (IF c.ent = 0 THEN 0 ELSE Mul(Mul(p[i][a], lp[i][a] + h[i]), c.ent) \div T)
  IN [s \in 1..Len(th) |-> [a \in 1..Len(th[s]) |-> Frac(SumSeq([i \in 1..T |-> one(i, s, a)]), 2, c.temp2)]]
VDir(c, v, tr) == LET y == Target(c, tr)  T == Len(y) IN
  [s \in 1..Len(v) |-> Frac(SumSeq([i \in 1..T |-> IF tr.s[i] = s THEN v[s] - y[i] ELSE 0]), 2, T)]
(* one update from the episodes X (a sequence): the mean of their directions *)
Update(c, th, v, X) == LET D == [k \in 1..Len(X) |-> Dir(c, th, v, X[k])] IN
  [s \in 1..Len(th) |-> [a \in 1..Len(th[s]) |-> th[s][a] + Frac(SumSeq([k \in 1..Len(X) |-> D[k][s][a]]), c.lr8, 8 * Len(X))]]
VUpdate(c, v, X) == LET D == [k \in 1..Len(X) |-> VDir(c, v, X[k])] IN
  [s \in 1..Len(v) |-> v[s] - Frac(SumSeq([k \in 1..Len(X) |-> D[k][s]]), c.vlr8, 8 * Len(X))]
(* the minibatches that may be drawn next from the episodes not yet used in this pass *)
Draws(rem, b) == {X \in SUBSET rem : Cardinality(X) = Min2(b, Cardinality(rem))}
====
