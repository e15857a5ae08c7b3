---- MODULE Planning ----
(* Planning with an ensemble of world models.

   A plan is a sequence of actions; each is tried on `ens` trajectories, each trajectory staying with
   one world model from the initial state until the horizon, or a predicted end when ends count.
   c: disc (discrete), H, pop, ens, iters, elites, n (actions), S0 (initial state), term, gamma,
      lo, hi (bounds per dimension), alpha, eps                                                    *)
EXTENDS FixMath, FiniteSets
NoPlan == <<>>
Dims(c) == Len(c.lo)
Middle(c) == [k \in 1..(c.H * Dims(c)) |-> LET d == ((k - 1) % Dims(c)) + 1 IN (c.lo[d] + c.hi[d]) \div 2]
Wide(c) == [k \in 1..(c.H * Dims(c)) |-> LET d == ((k - 1) % Dims(c)) + 1 IN Mul(c.hi[d] - c.lo[d], c.hi[d] - c.lo[d]) \div 16]
Begin(c) == [it |-> 1, sols |-> <<>>, tr |-> 1, step |-> 1, m |-> 0, plan |-> NoPlan, at |-> {c.S0}, dsc |-> Unit, sum |-> 0,
             mean |-> IF c.disc THEN <<>> ELSE Middle(c), var |-> IF c.disc THEN <<>> ELSE Wide(c), blur |-> FALSE, models |-> {}, far |-> FALSE]
(* ---- rollouts ---- *)
Ends(c, st, e) == (c.term /\ e.done) \/ st.step = c.H
Longer(st, a) == IF Len(st.plan) >= st.step THEN st.plan ELSE Append(st.plan, a)
Take(c, st, e) ==
  LET sum == st.sum + Mul(st.dsc, e.r)
      plan == Longer(st, e.a)
      on == [st EXCEPT !.plan = plan, !.models = @ \cup {e.m}] IN
  IF ~Ends(c, st, e) THEN [on EXCEPT !.step = @ + 1, !.m = e.m, !.at = e.nexts, !.dsc = Mul(@, c.gamma), !.sum = sum]
  ELSE IF st.tr < c.ens THEN [on EXCEPT !.tr = @ + 1, !.step = 1, !.at = {c.S0}, !.dsc = Unit, !.sum = sum]
  ELSE [on EXCEPT !.sols = Append(@, [plan |-> plan, score |-> sum \div c.ens]), !.tr = 1, !.step = 1, !.plan = NoPlan, !.at = {c.S0}, !.dsc = Unit, !.sum = 0]
Full(c, st) == Len(st.sols) = c.pop
(* ---- discrete choice: the first action whose plans do best on average ---- *)
Begun(st, a) == {i \in 1..Len(st.sols) : st.sols[i].plan[1] = a}
Worth(st, a) == SumSeq([i \in 1..Len(st.sols) |-> IF i \in Begun(st, a) THEN st.sols[i].score ELSE 0]) \div Cardinality(Begun(st, a))
Best(c, st, a, tol) == Begun(st, a) # {} /\ \A b \in 0..(c.n - 1) : Begun(st, b) # {} => Worth(st, b) <= Worth(st, a) + tol
(* ---- continuous refinement ---- *)
Flat(c, p) == [k \in 1..(c.H * Dims(c)) |-> p[((k - 1) \div Dims(c)) + 1][((k - 1) % Dims(c)) + 1]]
Better(st, i, j) == st.sols[i].score > st.sols[j].score \/ (st.sols[i].score = st.sols[j].score /\ i > j)
Elite(c, st) == {i \in 1..Len(st.sols) : Cardinality({j \in 1..Len(st.sols) : Better(st, j, i)}) < c.elites}
Close(c, st, tol) == LET E == Elite(c, st) IN \E i \in E, j \in (1..Len(st.sols)) \ E : Abs(st.sols[i].score - st.sols[j].score) <= tol
MeanOf(c, st, k) == LET E == Elite(c, st) IN SumSeq([i \in 1..Len(st.sols) |-> IF i \in E THEN Flat(c, st.sols[i].plan)[k] ELSE 0]) \div Cardinality(E)
VarOf(c, st, k) == LET E == Elite(c, st)  m == MeanOf(c, st, k) IN
  SumSeq([i \in 1..Len(st.sols) |-> IF i \in E THEN LET d == Flat(c, st.sols[i].plan)[k] - m IN Mul(d, d) ELSE 0]) \div Cardinality(E)
Mix(c, old, new) == Mul(old, c.alpha) + Mul(new, Unit - c.alpha)
Refine(c, st) ==
  [st EXCEPT !.it = @ + 1, !.sols = <<>>, !.blur = @ \/ Close(c, st, 16),
             !.mean = [k \in 1..Len(st.mean) |-> Mix(c, st.mean[k], MeanOf(c, st, k))],
             !.var = [k \in 1..Len(st.var) |-> Mix(c, st.var[k], VarOf(c, st, k))]]
Half2(x) == Mul(x \div 2, x \div 2)
Held(c, st, k) == LET d == ((k - 1) % Dims(c)) + 1 IN Min2(Min2(Half2(st.mean[k] - c.lo[d]), Half2(c.hi[d] - st.mean[k])), st.var[k])
Settled(c, st, slack) == st.it > 1 /\ \A k \in 1..Len(st.var) : st.var[k] <= c.eps + slack
Spent(c, st) == st.it > c.iters
(* ---- exhaustive planning on sequences, listed in order: the first action's block ---- *)
RECURSIVE Pow(_, _)
Pow(n, k) == IF k = 0 THEN 1 ELSE n * Pow(n, k - 1)
Block(n, L, a) == LET w == Pow(n, L - 1) IN ((a - 1) * w + 1)..(a * w)
TopOf(val, n, L, a) == SMax({val[i] : i \in Block(n, L, a)})
====
