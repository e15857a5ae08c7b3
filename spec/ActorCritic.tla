---- MODULE ActorCritic ----
(* One training step of the actor-critic learners on small exact networks.

   Continuous actions (scalar): critic Q(s, a) = w[s] + v[s] * a; actor mu[s] with log probability
   ell[s]; state values val[s].  Discrete actions: critic tables q[s][a], actor logits pi[s][a].
   A row: [s, s2, a (fixed point action, or action index), r, nt].
   Learning rates are sixteenths: lrq, lra (actor), lrv (value), lral (temperature).            *)
EXTENDS FixMath

GammaOf(c) == (Unit * c.gamma) \div 16
SoftStep(c, new, old) == Frac(new, c.tau, 16) + Frac(old, 16 - c.tau, 16)
QV(k, s, a) == k.w[s + 1] + Mul(k.v[s + 1], a)
Twin(c) == c.twin
MinQ(c, k1, k2, s, a) == IF Twin(c) THEN Min2(QV(k1, s, a), QV(k2, s, a)) ELSE QV(k1, s, a)

(* mean squared error step of a critic toward the targets Y (one per row) *)
RECURSIVE PullW(_, _, _, _, _)
PullW(k, B, Y, s, i) == IF i = 0 THEN 0 ELSE (IF B[i].s = s THEN Y[i] - QV(k, s, B[i].a) ELSE 0) + PullW(k, B, Y, s, i - 1)
RECURSIVE PullV(_, _, _, _, _)
PullV(k, B, Y, s, i) == IF i = 0 THEN 0 ELSE (IF B[i].s = s THEN Mul(Y[i] - QV(k, s, B[i].a), B[i].a) ELSE 0) + PullV(k, B, Y, s, i - 1)
StepCritic(c, k, B, Y) ==
  LET n == Len(B) IN
  [w |-> [s \in 1..c.S |-> k.w[s] + Frac(PullW(k, B, Y, s - 1, n), 2 * c.lrq, 16 * n)],
   v |-> [s \in 1..c.S |-> k.v[s] + Frac(PullV(k, B, Y, s - 1, n), 2 * c.lrq, 16 * n)]]
Count(B, s) == Len(SelectSeq(B, LAMBDA r : r.s = s))

(* every way to pick one target per row *)
RECURSIVE Picks(_, _)
Picks(X, i) == IF i = 0 THEN {<<>>} ELSE {Append(p, x) : p \in Picks(X, i - 1), x \in X[i]}

(* ---------- TD3 ---------- *)
(* the smoothing noise of the scenarios is either absent or so large that clipping decides it *)
Td3Next(c, k1t, k2t, mut, r) ==
  IF r.nt = 0 THEN {0}
  ELSE {MinQ(c, k1t, k2t, r.s2, Clip(mut[r.s2 + 1] + d, -Unit, Unit)) : d \in IF c.noise THEN {-c.clip, c.clip} ELSE {0}}
Td3Targets(c, s, r) == {r.r + Mul(x, GammaOf(c)) : x \in Td3Next(c, s.k1t, s.k2t, s.mut, r)}
(* the policy moves along the first (updated) critic's slope *)
Td3Actor(c, mu, k1, B) == [s \in 1..c.S |-> mu[s] + Frac(k1.v[s] * Count(B, s - 1), c.lra, 16 * Len(B))]
Selected(c, e) == e.i % c.delay = 0

(* ---------- SAC ---------- *)
SacNext(c, s, r) ==
  IF r.nt = 0 THEN 0
  ELSE IF c.value THEN s.valt[r.s2 + 1]
  ELSE MinQ(c, s.k1t, s.k2t, r.s2, s.mu[r.s2 + 1]) - Mul(Clip(s.ell[r.s2 + 1], -20 * Unit, 20 * Unit), s.alpha)
SacTarget(c, s, r) == r.r + Mul(SacNext(c, s, r), GammaOf(c))
(* slopes of the smaller critic; both when they tie *)
Slopes(c, k1, k2, s, a) ==
  IF ~Twin(c) THEN {k1.v[s + 1]}
  ELSE LET d == QV(k1, s, a) - QV(k2, s, a) IN
       CASE d > 6 -> {k2.v[s + 1]} [] d < -6 -> {k1.v[s + 1]} [] OTHER -> {k1.v[s + 1], k2.v[s + 1]}
CrrWeight(c, adv) ==
  IF c.crr = "indicator" THEN CASE adv >= c.threshold + 8 -> {Unit} [] adv < c.threshold - 8 -> {0} [] OTHER -> {0, Unit}
  ELSE {LET x == Div(adv, c.beta) + d  e == IF x > 7 * Unit THEN 1000 * Unit ELSE Exp(x) IN IF c.clamp > 0 THEN Min2(e, c.clamp) ELSE e : d \in {-16, 16}}
Advantage(c, s, k1, k2, x) == MinQ(c, k1, k2, x, s.mu[x + 1]) - s.val[x + 1]

Mean(f) == SumSeq(f) \div Len(f)
(* derivative of the batch KL term with respect to the action of row i *)
KldSlope(c, s, B, i) ==
  LET n == Len(B)
      a == [j \in 1..n |-> s.mu[B[j].s + 1]]
      m == Mean(a)
      var == SumSeq([j \in 1..n |-> Mul(a[j] - m, a[j] - m)]) \div (n - 1)
      dv == (a[i] - m) \div (n - 1)
  IN Div(dv, c.kvar) + Div(m - c.kmean, c.kvar) \div n - Div(dv, var)
KldVar(s, B) == LET n == Len(B)  a == [j \in 1..n |-> s.mu[B[j].s + 1]]  m == Mean(a) IN SumSeq([j \in 1..n |-> Mul(a[j] - m, a[j] - m)]) \div (n - 1)
KldPull(c, s, B, x) == IF ~c.kld THEN 0 ELSE SumSeq([i \in 1..Len(B) |-> IF B[i].s = x THEN KldSlope(c, s, B, i) ELSE 0])
(* admissible new values of mu[x] and ell[x] *)
SacMu(c, s, k1, k2, B, x) ==
  LET base == s.mu[x + 1] - Frac(Mul(KldPull(c, s, B, x), c.kweight), c.lra, 16) IN
  IF c.crr # "none" THEN {base}
  ELSE {base + Frac(v * Count(B, x), c.lra, 16 * Len(B)) : v \in Slopes(c, k1, k2, x, s.mu[x + 1])}
SacEll(c, s, k1, k2, B, x) ==
  IF ~c.backprop THEN {s.ell[x + 1]}
  ELSE IF c.crr # "none" THEN {s.ell[x + 1] + Frac(w * Count(B, x), c.lra, 16 * Len(B)) : w \in CrrWeight(c, Advantage(c, s, k1, k2, x))}
  ELSE {s.ell[x + 1] - Frac(s.alpha * Count(B, x), c.lra, 16 * Len(B))}
SacLogAlpha(c, s, B) == s.logalpha + Frac(SumSeq([i \in 1..Len(B) |-> s.ell[B[i].s + 1] + c.entropy]), c.lral, 16 * Len(B))
SacValue(c, s, k1, k2, alpha, B, x) ==
  LET y == MinQ(c, k1, k2, x, s.mu[x + 1]) - (IF c.uniform THEN 0 ELSE Mul(Clip(s.ell[x + 1], -20 * Unit, 20 * Unit), alpha))
  IN s.val[x + 1] + Frac((y - s.val[x + 1]) * Count(B, x), 2 * c.lrv, 16 * Len(B))

(* ---------- discrete CRR ---------- *)
Expect(p, q) == SumSeq([a \in 1..Len(p) |-> Mul(q[a], p[a])])
CrrNext(c, s, r) ==
  IF r.nt = 0 THEN 0
  ELSE LET p == Softmax(IF c.usetarget THEN s.pit[r.s2 + 1] ELSE s.pi[r.s2 + 1])
           x1 == Expect(p, s.q1t[r.s2 + 1])
       IN IF Twin(c) THEN Min2(x1, Expect(p, s.q2t[r.s2 + 1])) ELSE x1
CrrTarget(c, s, r) == r.r + c.boost[r.a + 1] + Mul(CrrNext(c, s, r), GammaOf(c))
StepQTab(c, q, B, Y) ==
  [s \in 1..c.S |-> [a \in 1..c.A |-> q[s][a] +
     Frac(SumSeq([i \in 1..Len(B) |-> IF B[i].s = s - 1 /\ B[i].a = a - 1 THEN Y[i] - q[s][a] ELSE 0]), 2 * c.lrq, 16 * Len(B))]]
DiscWeight(q, p, a) == LET adv == q[a] - Expect(p, q) IN IF adv > 3 * Unit THEN 20 * Unit ELSE Min2(Exp(adv), 20 * Unit)
(* weighted regression toward the logged actions, weights from the updated first critic *)
CrrActor(c, s, q1, B) ==
  LET P == [x \in 1..c.S |-> Softmax(s.pi[x])] IN
  [x \in 1..c.S |-> [a \in 1..c.A |-> s.pi[x][a] +
    Frac(SumSeq([i \in 1..Len(B) |-> IF B[i].s # x - 1 THEN 0
          ELSE Mul((IF B[i].a = a - 1 THEN Unit ELSE 0) - P[x][a], DiscWeight(q1[x], P[x], B[i].a + 1))]), c.lra, 16 * Len(B))]]
====
