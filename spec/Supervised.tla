---- MODULE Supervised ----
(* Learners that fit logged targets: what each batch costs, which entries of the learner move and which way,
   and what an evaluation reports.  Quantities are in Unit fixed point. *)
EXTENDS FixMath, Sequences, Integers, FiniteSets, TLC
LOCAL Rng(s) == {s[i] : i \in 1..Len(s)}
Mean(f) == IF Len(f) = 0 THEN 0 ELSE SumSeq(f) \div Len(f)
Dot(a, b) == SumSeq([i \in 1..Len(a) |-> Mul(a[i], b[i])])
Sign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN 0 - 1 ELSE 0
ArgMaxes(x, d) == {i \in 1..Len(x) : x[i] >= MaxSeq(x) - d}
(* ------------------------------------------------ reward regression *)
(* cost of predicting p when the target is y, and how it changes with p *)
Cost(loss, p, y) ==
  LET d == p - y IN
  CASE loss = "MSE_Loss" -> Mul(d, d)
    [] loss = "SmoothL1_Loss" -> IF Abs(d) < Unit THEN Mul(d, d) \div 2 ELSE Abs(d) - (Unit \div 2)
    [] loss = "L1_Loss" -> Abs(d)
    [] loss = "BCE_Loss" -> 0 - (Mul(y, Ln(p)) + Mul(Unit - y, Ln(Unit - p)))
Slope(loss, p, y) ==
  LET d == p - y IN
  CASE loss = "MSE_Loss" -> 2 * d
    [] loss = "SmoothL1_Loss" -> Clip(d, 0 - Unit, Unit)
    [] loss = "L1_Loss" -> Sign(d) * Unit
    [] loss = "BCE_Loss" -> Div(d, Mul(p, Unit - p))
(* the rows that count in training: abnormal rewards are ignored *)
Counts(c, rows) == SelectSeq(rows, LAMBDA r : ~c.cut \/ r.y <= c.limit)
RewardLoss(c, th, rows) == Mean([i \in 1..Len(rows) |-> Cost(c.loss, th[rows[i].s], rows[i].y)])
RewardStep(c, th, rows) ==
  [s \in 1..Len(th) |-> th[s] - Mul(c.lr, SumSeq([i \in 1..Len(rows) |-> IF rows[i].s = s THEN Slope(c.loss, th[s], rows[i].y) ELSE 0]) \div Len(rows))]
(* entries whose direction cannot be told in fixed point *)
Unsure(c, th, rows, s) == c.loss = "L1_Loss" /\ \E i \in 1..Len(rows) : rows[i].s = s /\ Abs(th[s] - rows[i].y) < 4
(* an evaluator: losses, targets and predictions since the last report, and the best model so far *)
FreshEval == [loss |-> <<>>, y |-> <<>>, p |-> <<>>, best |-> <<>>, top |-> 1000000000]
See(c, ev, th, rows) == [ev EXCEPT !.loss = Append(@, RewardLoss(c, th, rows)), !.y = @ \o [i \in 1..Len(rows) |-> rows[i].y], !.p = @ \o [i \in 1..Len(rows) |-> th[rows[i].s]]]
Report(ev, th) == LET m == Mean(ev.loss) IN [FreshEval EXCEPT !.best = IF m < ev.top THEN th ELSE ev.best, !.top = Min2(m, ev.top)]
(* ------------------------------------------------ imitation *)
ImitCost(th, rows) == Mean([i \in 1..Len(rows) |-> LogSumExp(th[rows[i].s]) - th[rows[i].s][rows[i].a]])
ImitSlope(th, rows) ==
  LET P == [s \in 1..Len(th) |-> Softmax(th[s])] IN
  [s \in 1..Len(th) |-> [a \in 1..Len(th[s]) |-> SumSeq([i \in 1..Len(rows) |-> IF rows[i].s = s THEN P[s][a] - (IF rows[i].a = a THEN Unit ELSE 0) ELSE 0]) \div Len(rows)]]
Plus(A, B) == [s \in 1..Len(A) |-> [a \in 1..Len(A[s]) |-> A[s][a] + B[s][a]]]
Nil(A) == [s \in 1..Len(A) |-> [a \in 1..Len(A[s]) |-> 0]]
(* gradients of `every` batches are averaged into one step *)
ImitTrain(c, k, acc, th, rows) ==
  LET g == Plus(acc, ImitSlope(th, rows))
      fire == (k + 1) % c.every = 0
  IN [k |-> k + 1, fire |-> fire, acc |-> IF fire THEN Nil(g) ELSE g,
      th |-> IF fire THEN [s \in 1..Len(th) |-> [a \in 1..Len(th[s]) |-> th[s][a] - Mul(c.lr, g[s][a]) \div c.every]] ELSE th]
Hits(th, rows) == Cardinality({i \in 1..Len(rows) : rows[i].a \in ArgMaxes(th[rows[i].s], 0)})
SureHits(th, rows) == Cardinality({i \in 1..Len(rows) : ArgMaxes(th[rows[i].s], 3) = {rows[i].a}})
LooseHits(th, rows) == Cardinality({i \in 1..Len(rows) : rows[i].a \in ArgMaxes(th[rows[i].s], 3)})
(* which actions remain when those much less likely than the likeliest are dropped *)
Ratio(x, a) == Exp(x[a] - MaxSeq(x))
(* ------------------------------------------------ world models *)
HalfLn2Pi == 7528
(* what the linear network says for one step: a record of its parts; Parts are laid out mu, sigma, weight, reward, not-terminal *)
Out(c, W, x) ==
  LET o == [k \in 1..Len(W) |-> Dot(W[k], x)]
      st == c.G * c.sd
  IN [mu |-> [g \in 1..c.G |-> [d \in 1..c.sd |-> o[(g - 1) * c.sd + d]]],
      s |-> [g \in 1..c.G |-> [d \in 1..c.sd |-> o[st + (g - 1) * c.sd + d]]],
      lp |-> LogSoftmax([g \in 1..c.G |-> o[2 * st + g]]),
      r |-> o[2 * st + c.G + 1], nt |-> o[2 * st + c.G + 2]]
ZOf(o, g, d, nx) == Mul(nx[d] - o.mu[g][d], Exp(0 - o.s[g][d]))
LogN(c, o, g, nx) == o.lp[g] - SumSeq([d \in 1..c.sd |-> LET z == ZOf(o, g, d, nx) IN (Mul(z, z) \div 2) + o.s[g][d] + HalfLn2Pi])
StepNll(c, o, nx) == 0 - LogSumExp([g \in 1..c.G |-> LogN(c, o, g, nx)])
Sigmoid(x) == IF x >= 0 THEN Div(Unit, Unit + Exp(0 - x)) ELSE Unit - Div(Unit, Unit + Exp(x))
SoftPlus(x) == IF x > 0 THEN x + Ln(Unit + Exp(0 - x)) ELSE Ln(Unit + Exp(x))
StepBce(o, nt) == SoftPlus(o.nt) - Mul(o.nt, nt)
StepMse(o, r) == Mul(o.r - r, o.r - r)
(* a batch is a sequence of steps {x, nx, r, nt, t}; steps are all those that count *)
Counted(c, steps, T) == IF c.last THEN SelectSeq(steps, LAMBDA q : q.t = T) ELSE steps
Losses(c, W, steps) ==
  LET o == TLCEval([i \in 1..Len(steps) |-> Out(c, W, steps[i].x)])
      n == 1..Len(steps)
  IN [gmm |-> Mul(Mean([i \in n |-> StepNll(c, o[i], steps[i].nx)]), c.wn),
      bce |-> Mul(Mean([i \in n |-> StepBce(o[i], steps[i].nt)]), c.wt),
      mse |-> Mul(Mean([i \in n |-> StepMse(o[i], steps[i].r)]), c.wr)]
Total(c, L) == (L.gmm \div (c.sd + 2)) + L.bce + L.mse
(* direction of the loss in each output of one step (up to a positive factor per output) *)
OutSlope(c, o, q) ==
  LET lg == [g \in 1..c.G |-> LogN(c, o, g, q.nx)]
      tot == LogSumExp(lg)
      resp == [g \in 1..c.G |-> Exp(lg[g] - tot)]
      st == c.G * c.sd
      gd(k) == <<((k - 1) \div c.sd) + 1, ((k - 1) % c.sd) + 1>>
      wn == IF c.wn > 0 THEN 1 ELSE 0
  IN [k \in 1..(2 * st + c.G + 2) |->
       IF k <= st THEN LET p == gd(k)  z == ZOf(o, p[1], p[2], q.nx) IN wn * (0 - Mul(Mul(resp[p[1]], z), Exp(0 - o.s[p[1]][p[2]])))
       ELSE IF k <= 2 * st THEN LET p == gd(k - st)  z == ZOf(o, p[1], p[2], q.nx) IN wn * (0 - Mul(resp[p[1]], Mul(z, z) - Unit))
       ELSE IF k <= 2 * st + c.G THEN wn * (Exp(o.lp[k - 2 * st]) - resp[k - 2 * st])
       ELSE IF k = 2 * st + c.G + 1 THEN (IF c.wr > 0 THEN o.r - q.r ELSE 0)
       ELSE (IF c.wt > 0 THEN Sigmoid(o.nt) - q.nt ELSE 0)]
Slopes(c, W, steps) ==
  LET S == TLCEval([i \in 1..Len(steps) |-> OutSlope(c, Out(c, W, steps[i].x), steps[i])])
  IN [k \in 1..Len(W) |-> [j \in 1..Len(W[k]) |-> SumSeq([i \in 1..Len(steps) |-> Mul(S[i][k], steps[i].x[j])])]]
(* replacing one feature: positions lo..hi of every step's input; a lone position takes its mean, a coded choice one of its middling values *)
ColSum(steps, j) == SumSeq([i \in 1..Len(steps) |-> steps[i].x[j]])
Middling(steps, lo, hi) ==
  LET n == hi - lo + 1
      tally == [j \in 1..n |-> ColSum(steps, lo + j - 1)]
      below(j) == Cardinality({i \in 1..n : tally[i] < tally[j]})
      atmost(j) == Cardinality({i \in 1..n : tally[i] <= tally[j]})
      mid == ((n - 1) \div 2) + 1
  IN {j \in 1..n : below(j) < mid /\ atmost(j) >= mid}
Fills(steps, lo, hi) ==
  IF lo = hi THEN {<<ColSum(steps, lo) \div Len(steps)>>}
  ELSE {[i \in 1..(hi - lo + 1) |-> IF i = j THEN Unit ELSE 0] : j \in Middling(steps, lo, hi)}
Fill(steps, lo, hi, v) == [i \in 1..Len(steps) |-> [steps[i] EXCEPT !.x = [j \in 1..Len(@) |-> IF j >= lo /\ j <= hi THEN v[j - lo + 1] ELSE @[j]]]]
(* ------------------------------------------------ sequence reward *)
RECURSIVE Pow(_, _)
Pow(g, k) == IF k = 0 THEN Unit ELSE Mul(Pow(g, k - 1), g)
Return(c, r, len) == SumSeq([k \in 1..len |-> Mul(r[k], Pow(c.gamma, k - 1))])
(* the reward predicted for a state and the first len actions *)
Predict(th, s, a, len) == Dot(th.s, s) + SumSeq([k \in 1..len |-> th.a[k][a[k]]])
SeqLoss(c, th, rows) == Mean([i \in 1..Len(rows) |-> LET d == Predict(th, rows[i].s, rows[i].a, rows[i].len) - Return(c, rows[i].r, rows[i].len) IN Mul(d, d)])
LenLoss(rows) == Mean([i \in 1..Len(rows) |-> LogSumExp(rows[i].logit) - rows[i].logit[rows[i].len]])
LenSlope(c, rows) == [k \in 1..c.L |-> SumSeq([i \in 1..Len(rows) |-> Softmax(rows[i].logit)[k] - (IF rows[i].len = k THEN Unit ELSE 0)])]
(* best total over the sequences that begin with each action *)
QOf(c, th, s) == [a \in 1..c.n |-> Dot(th.s, s) + th.a[1][a] + SumSeq([k \in 1..(c.L - 1) |-> MaxSeq(th.a[k + 1])])]
MeanQ(c, th, rows) == [a \in 1..c.n |-> Mean([i \in 1..Len(rows) |-> QOf(c, th, rows[i].s)[a]])]
(* share of rows whose best action is a: between those surely and those possibly *)
Share(c, th, rows, a, d) == Cardinality({i \in 1..Len(rows) : a \in ArgMaxes(QOf(c, th, rows[i].s), d)})
Sure(c, th, rows, a, d) == Cardinality({i \in 1..Len(rows) : ArgMaxes(QOf(c, th, rows[i].s), d) = {a}})
SeqErr(c, th, rows) == [i \in 1..Len(rows) |-> Predict(th, rows[i].s, rows[i].a, rows[i].len) - Return(c, rows[i].r, rows[i].len)]
SlopeS(c, th, rows) == LET d == SeqErr(c, th, rows) IN [j \in 1..Len(th.s) |-> SumSeq([i \in 1..Len(rows) |-> Mul(d[i], rows[i].s[j])])]
SlopeA(c, th, rows) == LET d == SeqErr(c, th, rows) IN [k \in 1..c.L |-> [a \in 1..c.n |-> SumSeq([i \in 1..Len(rows) |-> IF k <= rows[i].len /\ rows[i].a[k] = a THEN d[i] ELSE 0])]]
(* ------------------------------------------------ compressed policy *)
Says(C, s) == [a \in 1..Len(C) |-> Dot(C[a], s)]
CompLoss(c, C, rows) ==
  Mean([i \in 1..Len(rows) |-> Mean([a \in 1..c.n |-> LET d == Says(C, rows[i].s)[a] - QOf(c, c.net, rows[i].s)[a] IN Mul(d, d)])])
CompSlope(c, C, rows) ==
  [a \in 1..Len(C) |-> [j \in 1..Len(C[a]) |-> SumSeq([i \in 1..Len(rows) |-> Mul(Says(C, rows[i].s)[a] - QOf(c, c.net, rows[i].s)[a], rows[i].s[j])])]]
SureAgree(c, C, rows) == Cardinality({i \in 1..Len(rows) : LET x == ArgMaxes(Says(C, rows[i].s), 4)  y == ArgMaxes(QOf(c, c.net, rows[i].s), 4) IN x = y /\ Cardinality(x) = 1})
MayAgree(c, C, rows) == Cardinality({i \in 1..Len(rows) : ArgMaxes(Says(C, rows[i].s), 4) \cap ArgMaxes(QOf(c, c.net, rows[i].s), 4) # {}})
(* ------------------------------------------------ ranking metrics: y marks the wanted items, order lists items best first *)
Ln2 == 5678
InvLog2(k) == Div(Ln2, Ln((k + 1) * Unit))                       \* 1 / log2(k + 1)
Dcg(y, order) == SumSeq([k \in 1..Len(order) |-> IF y[order[k]] = 1 THEN InvLog2(k) ELSE 0])
Wanted(y) == Cardinality({i \in 1..Len(y) : y[i] = 1})
BestDcg(y) == SumSeq([k \in 1..Wanted(y) |-> InvLog2(k)])
Ndcg(y, order) == Div(Dcg(y, order), BestDcg(y))
HitsTo(y, order, k) == Cardinality({j \in 1..k : y[order[j]] = 1})
Ap(y, order) == SumSeq([k \in 1..Len(order) |-> IF y[order[k]] = 1 THEN (HitsTo(y, order, k) * Unit) \div k ELSE 0]) \div Wanted(y)
Auc(y, order) ==
  LET good == Cardinality({q \in (1..Len(order)) \X (1..Len(order)) : q[1] < q[2] /\ y[order[q[1]]] = 1 /\ y[order[q[2]]] = 0})
  IN (good * Unit) \div (Wanted(y) * (Len(y) - Wanted(y)))
Telling(rows) == SelectSeq(rows, LAMBDA r : Wanted(r.y) > 0 /\ Wanted(r.y) < Len(r.y))
ListLoss(rows) == (* labels are listed in logged order, as the scores are *)
  SumSeq([i \in 1..Len(rows) |-> LET ls == LogSoftmax(rows[i].x) IN SumSeq([k \in 1..Len(rows[i].x) |-> IF rows[i].lab[k] = 1 THEN 0 - ls[k] ELSE 0])]) \div Len(rows)
====
