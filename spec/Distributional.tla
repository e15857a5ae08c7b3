---- MODULE Distributional ----
(* Distributional value learning on tables.
   Fixed support (C51): tab[s][a] is a row of logits over atoms; the return distribution is its
   softmax.  Quantiles (QR-DQN): tab[s][a] is a row of quantile values.
   Rows, options, discounts and admissible next actions are those of QLearning.               *)
EXTENDS QLearning

Zero(n) == [i \in 1..n |-> 0]
(* ---------- projection of a point mass at z onto the atoms z_1 < ... < z_n, spacing gap ---------- *)
Atom(c, i) == c.zmin + (i - 1) * c.gap
ZMax(c) == Atom(c, c.N)
(* the share of atom i: one minus its distance to the clamped point, in spacings *)
Share(c, z, i) == LET d == Abs(Clip(z, c.zmin, ZMax(c)) - Atom(c, i))
                  IN IF d >= c.gap THEN 0 ELSE Unit - ((d * 64) \div (c.gap \div 128))
(* the row a* of next-return probabilities, moved to r + g z, projected *)
ProjectAtom(c, p, r, g, i) == SumSeq([j \in 1..c.N |-> Mul(p[j], Share(c, r + Mul(Atom(c, j), g), i))])
Project(c, p, r, g) == [i \in 1..c.N |-> ProjectAtom(c, p, r, g, i)]

Mean51(c, logits) == LET p == Softmax(logits) IN SumSeq([j \in 1..c.N |-> Mul(Atom(c, j), p[j])])
MeanQR(c, q) == SumSeq(q) \div c.N
Values(c, tab, s) == [a \in 1..c.A |-> IF c.kind = "c51" THEN Mean51(c, tab[s + 1][a]) ELSE MeanQR(c, tab[s + 1][a])]
BestD(v, A, tol) == {a \in A : \A b \in A : v[b + 1] <= v[a + 1] + tol}
NextActions(c, q, tq, r) == LET A == Allowed(c, r) IN IF Len(r.mask2) = 0 \/ A = {} THEN {} ELSE BestD(Values(c, IF c.double THEN q ELSE tq, r.s2), A, IF c.kind = "c51" THEN 24 ELSE 2)

G(c, r) == Discount(c, r)
Rew(c, r) == r.r + c.boost[r.a + 1]
(* set of possible target distributions of a row (more than one only for near ties) *)
Targets51(c, q, tq, r) ==
  IF r.nt = 0 THEN {[i \in 1..c.N |-> Share(c, Rew(c, r), i)]}
  ELSE {Project(c, Softmax(tq[r.s2 + 1][a + 1]), Rew(c, r), G(c, r)) : a \in NextActions(c, q, tq, r)}
(* cross entropy step: each logged row pulls the logits by lr/B times (target - current) *)
Step51(c, hi, q, tq, B, s, a, i) ==
  LET R == RowsOf(B, s, a)
      p == Softmax(q[s + 1][a + 1])
      errs == [k \in 1..Len(R) |-> LET T == {m[i] : m \in Targets51(c, q, tq, R[k])} IN (IF hi THEN SMax(T) ELSE SMin(T)) - p[i]]
  IN q[s + 1][a + 1][i] + Frac(SumSeq(errs), c.lr, 16 * Len(B))

TargetsQR(c, q, tq, r) ==
  IF r.nt = 0 THEN {[j \in 1..c.N |-> Rew(c, r)]}
  ELSE {[j \in 1..c.N |-> Rew(c, r) + Mul(tq[r.s2 + 1][a + 1][j], G(c, r))] : a \in NextActions(c, q, tq, r)}
(* quantile huber step: quantile i (level (2i-1)/2N) is pulled up by its level and down by the rest *)
PullQR(c, x, y, i) == LET d == Clip(y - x, -Unit, Unit) IN IF d >= 0 THEN Frac(d, (2 * i) - 1, 2 * c.N) ELSE -Frac(-d, (2 * c.N) - ((2 * i) - 1), 2 * c.N)
StepQR(c, hi, q, tq, B, s, a, i) ==
  LET R == RowsOf(B, s, a)
      x == q[s + 1][a + 1][i]
      one(T) == SumSeq([j \in 1..c.N |-> PullQR(c, x, T[j], i)])
      errs == [k \in 1..Len(R) |-> LET X == {one(T) : T \in TargetsQR(c, q, tq, R[k])} IN IF hi THEN SMax(X) ELSE SMin(X)]
  IN x + Frac(SumSeq(errs), c.lr, 16 * Len(B) * c.N * c.N)
StepD(c, hi, q, tq, B, s, a, i) == IF c.kind = "c51" THEN Step51(c, hi, q, tq, B, s, a, i) ELSE StepQR(c, hi, q, tq, B, s, a, i)
====
