---- MODULE P12Trace ----
EXTENDS ActorCritic, TLC, Json, IOUtils
VARIABLES t, l, st, bad
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
Start(c) == c.start
Apply(c, s, e) == IF e.ev = "crash" THEN s ELSE e.st

Tol == 14
NearSeq(x, y, tol) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : Near(x[i], y[i], tol)
NearTab(x, y, tol) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : NearSeq(x[i], y[i], tol)
NearC(x, y, tol) == NearSeq(x.w, y.w, tol) /\ NearSeq(x.v, y.v, tol)
SoftC(c, k, kt) == [w |-> [i \in 1..c.S |-> SoftStep(c, k.w[i], kt.w[i])], v |-> [i \in 1..c.S |-> SoftStep(c, k.v[i], kt.v[i])]]
SoftSeq(c, x, y) == [i \in 1..Len(x) |-> SoftStep(c, x[i], y[i])]
SoftTab(c, x, y) == [i \in 1..Len(x) |-> SoftSeq(c, x[i], y[i])]

Td3(c, s, e) ==
  LET B == e.rows  n == e.st
      P == Picks([i \in 1..Len(B) |-> Td3Targets(c, s, B[i])], Len(B))
  IN CASE ~\E Y \in P : NearC(n.k1, StepCritic(c, s.k1, B, Y), Tol) -> "first critic did not move toward reward plus discounted smaller target value"
       [] c.twin /\ ~\E Y \in P : NearC(n.k1, StepCritic(c, s.k1, B, Y), Tol) /\ NearC(n.k2, StepCritic(c, s.k2, B, Y), Tol) -> "second critic did not move toward the same target"
       [] Selected(c, e) /\ ~NearSeq(n.mu, Td3Actor(c, s.mu, n.k1, B), Tol) -> "policy did not move toward higher critic value"
       [] ~Selected(c, e) /\ n.mu # s.mu -> "policy moved on a step the delay skips"
       [] ~Selected(c, e) /\ (n.k1t # s.k1t \/ n.k2t # s.k2t \/ n.mut # s.mut) -> "target networks moved on a step the delay skips"
       [] Selected(c, e) /\ ~(NearC(n.k1t, SoftC(c, n.k1, s.k1t), Tol) /\ (c.twin => NearC(n.k2t, SoftC(c, n.k2, s.k2t), Tol))) -> "critic targets"
       [] Selected(c, e) /\ ~NearSeq(n.mut, SoftSeq(c, n.mu, s.mut), Tol) -> "policy target"
       [] OTHER -> ""
Sac(c, s, e) ==
  LET B == e.rows  n == e.st
      Y == [i \in 1..Len(B) |-> SacTarget(c, s, B[i])]
      X == 0..(c.S - 1)
      ktol == IF c.kld THEN 60 ELSE Tol
  IN CASE ~NearC(n.k1, StepCritic(c, s.k1, B, Y), Tol) -> "first critic did not move toward the soft target"
       [] c.twin /\ ~NearC(n.k2, StepCritic(c, s.k2, B, Y), Tol) -> "second critic did not move toward the soft target"
       [] (~c.kld \/ KldVar(s, B) > 400) /\ \E x \in X : LET M == SacMu(c, s, n.k1, n.k2, B, x) IN ~Within(n.mu[x + 1], SMin(M), SMax(M), ktol) -> "policy action did not move as specified"
       [] \E x \in X : LET M == SacEll(c, s, n.k1, n.k2, B, x) IN ~Within(n.ell[x + 1], SMin(M), SMax(M), Tol) -> "policy log probability did not move as specified"
       [] c.learnalpha /\ ~Near(n.logalpha, SacLogAlpha(c, s, B), Tol) -> "temperature did not move toward the target entropy"
       [] ~Near(n.alpha, IF c.learnalpha THEN Exp(n.logalpha) ELSE s.alpha, 4) -> "the temperature in use is not the learned one"
       [] c.value /\ \E x \in X : LET M == {SacValue(c, s, n.k1, n.k2, al, B, x) : al \in {s.alpha, n.alpha}} IN ~Within(n.val[x + 1], SMin(M), SMax(M), Tol) -> "state value did not move toward its target"
       [] c.value /\ ~NearSeq(n.valt, SoftSeq(c, n.val, s.valt), Tol) -> "state value target"
       [] ~c.value /\ ~(NearC(n.k1t, SoftC(c, n.k1, s.k1t), Tol) /\ (c.twin => NearC(n.k2t, SoftC(c, n.k2, s.k2t), Tol))) -> "critic targets"
       [] OTHER -> ""
EvalHeads(c, s, e) ==
  LET B == e.rows  n == e.st
      R(x, a) == SelectSeq(B, LAMBDA r : r.s = x /\ r.a = a)
      rew(x, a) == LET Q == R(x, a) IN s.rw[x + 1][a + 1] + Frac(SumSeq([i \in 1..Len(Q) |-> Q[i].r - s.rw[x + 1][a + 1]]), 2 * c.lrq, 16 * Len(B))
      nxt(r) == IF r.nt = 0 THEN 0 ELSE Expect(SoftmaxOver(s.q1t[r.s2 + 1], {a \in 1..c.A : r.mask2[a] = 1}), s.tcq[r.s2 + 1])
      cpe(x, a) == LET Q == R(x, a) IN s.cq[x + 1][a + 1] + Frac(SumSeq([i \in 1..Len(Q) |-> Q[i].r + Mul(nxt(Q[i]), GammaOf(c)) - s.cq[x + 1][a + 1]]), 2 * c.lrq, 16 * Len(B))
      tab(f(_, _)) == [x \in 1..c.S |-> [a \in 1..c.A |-> f(x - 1, a - 1)]]
  IN CASE ~NearTab(n.rw, tab(rew), Tol) -> "reward head"
       [] ~NearTab(n.cq, tab(cpe), Tol) -> "evaluation value head"
       [] ~(IF Selected(c, e) THEN NearTab(n.tcq, SoftTab(c, n.cq, s.tcq), Tol) ELSE n.tcq = s.tcq) -> "evaluation target head"
       [] OTHER -> ""
Crr(c, s, e) ==
  LET B == e.rows  n == e.st
      Y == [i \in 1..Len(B) |-> CrrTarget(c, s, B[i])]
  IN CASE ~NearTab(n.q1, StepQTab(c, s.q1, B, Y), Tol) -> "first critic did not move toward reward plus discounted expected target value"
       [] c.twin /\ ~NearTab(n.q2, StepQTab(c, s.q2, B, Y), Tol) -> "second critic did not move toward the same target"
       [] Selected(c, e) /\ ~NearTab(n.pi, CrrActor(c, s, n.q1, B), 40) -> "policy did not regress on logged actions weighted by advantage"
       [] ~Selected(c, e) /\ n.pi # s.pi -> "policy moved on a step the delay skips"
       [] ~Selected(c, e) /\ (n.q1t # s.q1t \/ n.q2t # s.q2t \/ n.pit # s.pit) -> "target networks moved on a step the delay skips"
       [] Selected(c, e) /\ ~(NearTab(n.q1t, SoftTab(c, n.q1, s.q1t), Tol) /\ (c.twin => NearTab(n.q2t, SoftTab(c, n.q2, s.q2t), Tol))) -> "critic targets"
       [] Selected(c, e) /\ ~NearTab(n.pit, SoftTab(c, n.pi, s.pit), Tol) -> "policy target"
       [] c.heads -> EvalHeads(c, s, e)
       [] OTHER -> ""
Verdict(c, s, e) ==
  CASE e.exc # "" -> "a training step failed"
    [] e.ev = "td3" -> Td3(c, s, e)
    [] e.ev = "sac" -> Sac(c, s, e)
    [] e.ev = "crr" -> Crr(c, s, e)
    [] OTHER -> "unknown event"
INSTANCE TraceBase
====
