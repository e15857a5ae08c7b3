---- MODULE Evolution ----
(* Evolution strategy: everybody mutates one shared parent the same way, tries every mutant, averages what it
   earned over all workers, and moves the parent along the reward-weighted noise (Adam).
   c: P (population), pn / pd (mutation power), lr (step size, fixed point)                               *)
EXTENDS FixMath, FiniteSets, TLC
Blank(n) == [M |-> [d \in 1..n |-> 0], W |-> 0, V |-> [d \in 1..n |-> 0], Z |-> 0]
Diff(x, y) == [d \in 1..Len(x) |-> x[d] - y[d]]
Mean(r) == SumSeq(r) \div Len(r)
(* average over workers of each member's reward *)
Shared(R) == TLCEval([i \in 1..Len(R[1]) |-> SumSeq([w \in 1..Len(R) |-> R[w][i]]) \div Len(R)])
Var(r) == LET m == Mean(r) IN SumSeq([i \in 1..Len(r) |-> Mul(r[i] - m, r[i] - m)]) \div (Len(r) - 1)
Flat(r) == Len(r) = 1 \/ SMax({r[i] : i \in 1..Len(r)}) - SMin({r[i] : i \in 1..Len(r)}) <= 1
Std(r) == Sqrt(Var(r))
(* descent direction: minus the mean of noise in units of its deviation, weighed by standardised reward *)
Grad(c, parent, pop, r) == TLCEval(
  LET m == Mean(r)  sd == Std(r)  n == Len(pop) IN
  [d \in 1..Len(parent) |-> 0 - Frac(Div(SumSeq([i \in 1..n |-> Mul(pop[i][d] - parent[d], r[i] - m)]), sd), c.pd, c.pn * n)])
Learn(s, g) == TLCEval(
  [M |-> [d \in 1..Len(g) |-> Frac(s.M[d], 9, 10) + g[d]], W |-> Frac(s.W, 9, 10) + Unit,
   V |-> [d \in 1..Len(g) |-> s.V[d] - (s.V[d] \div 1000) + (g[d] * g[d])], Z |-> s.Z - (s.Z \div 1000) + 1000])
Rms(s, d) == Isqrt(Frac(s.V[d], 1000, s.Z))
Moved(c, s, d) == 0 - Mul(Div(Div(s.M[d], s.W), Rms(s, d)), c.lr)
Slack(c, s, d) == 8 + ((c.lr * 24) \div Rms(s, d))
====
