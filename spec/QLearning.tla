---- MODULE QLearning ----
(* Tabular Q-learning with a frozen target table, as one training step of the value based
   learners performs it.  Values are fixed point (FixMath!Unit); states and actions are 0-based.

   A row of a batch: [s, a, s2, a2: logged transition, r: reward (Unit), nt: 1 iff not terminal,
   td: logged time difference, k: steps covered, cand2: the actions offered in s2, mask2: which of
   those are possible (0/1), m: further metric values].                                         *)
EXTENDS FixMath

Gamma(c) == (Unit * c.gamma) \div 16
RECURSIVE GammaPow(_, _)
GammaPow(c, k) == IF k = 0 THEN Unit ELSE Frac(GammaPow(c, k - 1), c.gamma, 16)
Discount(c, r) == CASE c.discount = "time" -> GammaPow(c, r.td)
                    [] c.discount = "steps" -> GammaPow(c, r.k)
                    [] OTHER -> GammaPow(c, 1)

(* the actions the next value may come from *)
Viable(c, s, a) == (* batch constrained: the behaviour model must give the action at least the threshold fraction of its best action *)
  \/ ~c.bcq
  \/ LET x == c.imitator[s + 1] IN ExpHi(x[a + 1] - MaxSeq(x)) >= c.drop
Allowed(c, r) == IF c.maxq THEN {r.cand2[i] : i \in {j \in 1..Len(r.cand2) : r.mask2[j] = 1 /\ Viable(c, r.s2, r.cand2[j])}}
                 ELSE {r.a2}
(* near ties: the code's values agree with these tables only up to rounding *)
Best(v, A) == {a \in A : \A b \in A : v[b + 1] <= v[a + 1] + 1}
Chooser(c, q, tq, r) == IF c.double THEN q[r.s2 + 1] ELSE tq[r.s2 + 1]
NextValues(c, q, tq, r) ==
  IF r.nt = 0 THEN {0}
  ELSE {tq[r.s2 + 1][a + 1] : a \in Best(Chooser(c, q, tq, r), Allowed(c, r))}
Boost(c, r) == c.boost[r.a + 1]
TargetLo(c, q, tq, r) == r.r + Boost(c, r) + Mul(SMin(NextValues(c, q, tq, r)), Discount(c, r))
TargetHi(c, q, tq, r) == r.r + Boost(c, r) + Mul(SMax(NextValues(c, q, tq, r)), Discount(c, r))

(* one gradient step on the mean loss over n terms: each term pulls its cell by 2*err/n (squared
   loss) or by err clipped to one, over n (huber) *)
Pull(c, loss, err, n) == IF loss = "mse" THEN Frac(err, 2 * c.lr, 16 * n) ELSE Frac(Clip(err, -Unit, Unit), c.lr, 16 * n)
RECURSIVE PullSum(_, _, _, _, _)
PullSum(c, loss, errs, n, i) == IF i = 0 THEN 0 ELSE Pull(c, loss, errs[i], n) + PullSum(c, loss, errs, n, i - 1)
Move(c, loss, errs, n) == PullSum(c, loss, errs, n, Len(errs))

RowsOf(B, s, a) == SelectSeq(B, LAMBDA r : r.s = s /\ r.a = a)
StepQLo(c, q, tq, B, s, a) ==
  LET R == RowsOf(B, s, a) IN q[s + 1][a + 1] + Move(c, c.loss, [i \in 1..Len(R) |-> TargetLo(c, q, tq, R[i]) - q[s + 1][a + 1]], Len(B))
StepQHi(c, q, tq, B, s, a) ==
  LET R == RowsOf(B, s, a) IN q[s + 1][a + 1] + Move(c, c.loss, [i \in 1..Len(R) |-> TargetHi(c, q, tq, R[i]) - q[s + 1][a + 1]], Len(B))

Soft(c, new, old) == Frac(new, c.tau, 16) + Frac(old, 16 - c.tau, 16)

(* ---- evaluation heads: one reward table and one value table per metric (metric 1 is the reward) ---- *)
Metric(r, k) == IF k = 1 THEN r.r ELSE r.m[k - 1]
StepReward(c, rw, B, s, a, k) ==
  LET R == RowsOf(B, s, a) IN rw[s + 1][k][a + 1] + Move(c, "mse", [i \in 1..Len(R) |-> Metric(R[i], k) - rw[s + 1][k][a + 1]], Len(B) * c.metrics)
(* the evaluated policy is the softmax of the learned values over the possible actions *)
Policy(c, q, r) == IF c.maxq THEN SoftmaxOver([a \in 1..c.A |-> Frac(q[r.s2 + 1][a], 1, c.temp)], {a \in 1..c.A : r.mask2[a] = 1})
                   ELSE [a \in 1..c.A |-> IF a = r.a2 + 1 THEN Unit ELSE 0]
CpeNext(c, q, tcq, r, k) ==
  IF r.nt = 0 THEN 0 ELSE LET p == Policy(c, q, r) IN SumSeq([a \in 1..c.A |-> Mul(tcq[r.s2 + 1][k][a], p[a])])
(* with a behaviour constraint the evaluated policy may or may not be constrained as well *)
CpeSpan(c, q0, q1, tcq, r, k) ==
  IF c.bcq /\ c.maxq /\ r.nt = 1 THEN {tcq[r.s2 + 1][k][a + 1] : a \in {x \in 0..(c.A - 1) : r.mask2[x + 1] = 1}}
  ELSE {CpeNext(c, q0, tcq, r, k), CpeNext(c, q1, tcq, r, k)}
CpeErr(c, hi, q0, q1, cq, tcq, r, k) ==
  LET X == CpeSpan(c, q0, q1, tcq, r, k)
  IN Metric(r, k) + Mul(IF hi THEN SMax(X) ELSE SMin(X), Discount(c, r)) - cq[r.s + 1][k][r.a + 1]
StepCpe(c, hi, q0, q1, cq, tcq, B, s, a, k) ==
  LET R == RowsOf(B, s, a) IN cq[s + 1][k][a + 1] + Move(c, c.loss, [i \in 1..Len(R) |-> CpeErr(c, hi, q0, q1, cq, tcq, R[i], k)], Len(B) * c.metrics)
====
