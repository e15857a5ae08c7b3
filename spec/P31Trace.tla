---- MODULE P31Trace ----
EXTENDS Supervised, TLC, Json, IOUtils
VARIABLES t, l, st, bad
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
Start(c) ==
  CASE c.kind = "reward" -> [th |-> c.th, ev |-> FreshEval]
    [] c.kind = "imit" -> [th |-> c.th, k |-> 0, acc |-> Nil(c.th), blur |-> FALSE]
    [] c.kind \in {"world", "s2r", "comp"} -> [th |-> c.th, k |-> 0]
    [] c.kind = "pool" -> [kept |-> <<>>]
    [] OTHER -> [k |-> 0]
Clauses(X) == IF X \ {""} = {} THEN "" ELSE CHOOSE z \in X \ {""} : TRUE
Same(x, y, d) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : Near(y[i], x[i], d)
Same2(x, y, d) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : Same(x[i], y[i], d)
(* ---- reward ---- *)
VReward(c, s, e) ==
  CASE e.ev = "train" ->
        LET rows == Counts(c, e.rows) IN
        IF Len(rows) = 0 THEN (IF e.th # s.th THEN "a batch with no row that counts moved the network" ELSE "")
        ELSE IF e.exc # "" THEN "a training step failed"
        ELSE IF ~Near(e.loss, RewardLoss(c, s.th, rows), c.tol) THEN "the reported loss is not that of the rows that count"
        ELSE IF \E k \in 1..Len(s.th) : ~Unsure(c, s.th, rows, k) /\ ~Near(e.th[k], RewardStep(c, s.th, rows)[k], c.tol) THEN "the network did not move down its loss"
        ELSE ""
    [] e.ev = "eval" ->
        IF e.exc # "" THEN "an evaluation failed"
        ELSE IF e.th # s.th THEN "an evaluation moved the network"
        ELSE IF ~e.mode THEN "an evaluation left the network in another mode" ELSE ""
    [] e.ev = "report" ->
        IF e.exc # "" THEN "an evaluation failed"
        ELSE IF e.th # s.th THEN "an evaluation moved the network"
        ELSE IF ~Near(e.loss, Mean(s.ev.loss), c.tol) THEN "the evaluation loss is not the mean loss of all rows"
        ELSE IF ~Same(s.ev.y, e.y, 2) \/ ~Same(s.ev.p, e.p, 2) THEN "the evaluation lost or mixed rewards and predictions"
        ELSE IF Abs(Mean(s.ev.loss) - s.ev.top) <= 2 * c.tol THEN ""
        ELSE IF ~Same(Report(s.ev, s.th).best, e.best, 2) THEN "the best model kept is not that with the lowest evaluation loss" ELSE ""
(* ---- imitation ---- *)
VImit(c, s, e) ==
  LET n == Len(e.rows) IN
  CASE e.ev = "keep" ->
        IF e.exc # "" THEN "filtering failed"
        ELSE IF \E i \in 1..n : \E a \in 1..Len(s.th[e.rows[i].s]) :
                  LET q == Ratio(s.th[e.rows[i].s], a) IN Abs(q - e.thr) > 6 /\ (e.mask[i][a] # (IF q >= e.thr THEN Unit ELSE 0)) THEN "an action was kept or dropped against its likelihood" ELSE ""
    [] OTHER ->
        IF e.exc # "" THEN "a step failed"
        ELSE IF e.acc * n > 1000 * LooseHits(s.th, e.rows) + n \/ e.acc * n < 1000 * SureHits(s.th, e.rows) - n THEN "the accuracy is not the share of predictions that match"
        ELSE IF e.ev = "eval" THEN (IF e.th # s.th THEN "an evaluation moved the network" ELSE "")
        ELSE LET r == ImitTrain(c, s.k, s.acc, s.th, e.rows) IN
             IF ~r.fire /\ e.th # s.th THEN "the network moved before its batches were gathered"
             ELSE IF ~Same2(r.th, e.th, 12) THEN "the network did not move down its loss" ELSE ""
(* ---- first step of Adam: every entry moves by the learning rate against its slope ---- *)
SignOk(old, new, slope, lr) == IF Abs(slope) > 40 THEN Near(new - old, 0 - Sign(slope) * lr, 3) ELSE Abs(new - old) <= lr + 3
Still(old, new, touched) == touched \/ new = old
(* ---- world model ---- *)
VLoss(c, s, e, steps) ==
  LET L == TLCEval(Losses(c, s.th, Counted(c, steps, e.T)))
  IN IF ~Near(e.gmm, L.gmm, 60) THEN "the next-state loss is not the likelihood of the logged next states"
     ELSE IF ~Near(e.bce, L.bce, 30) THEN "the terminal loss is not that of the logged ends"
     ELSE IF ~Near(e.mse, L.mse, 30) THEN "the reward loss is not that of the logged rewards"
     ELSE IF ~Near(e.loss, Total(c, L), 90) THEN "the losses are not added as configured" ELSE ""
Permuted(c, e, p) == [i \in 1..Len(e.steps) |-> [e.steps[i] EXCEPT !.x = [j \in 1..Len(@) |-> IF j <= c.ad THEN e.steps[((e.steps[i].t - 1) * e.B) + p[e.steps[i].b]].x[j] ELSE @[j]]]]
Shifts(c, W, e, p, lo, hi) ==
  LET o == [i \in 1..Len(e.steps) |-> Out(c, W, e.steps[i].x)]
      q == Permuted(c, e, p)
      o2 == [i \in 1..Len(q) |-> Out(c, W, q[i].x)]
  IN SumSeq([i \in 1..Len(q) |-> SumSeq([g \in 1..c.G |-> SumSeq([d \in 1..c.sd |-> IF d >= lo /\ d <= hi THEN Abs(o2[i].mu[g][d] - o[i].mu[g][d]) ELSE 0])])]) \div (Len(q) * c.G)
Perms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]}
Hi2(starts, i, top) == IF i = Len(starts) THEN top ELSE starts[i + 1] - 1
ImpOf(c, s, e, base, lo, hi, F) == \E v \in F : Near(e, Total(c, Losses(c, s.th, Fill(base, lo, hi, v))) - Total(c, Losses(c, s.th, base)), 150)
VWorld(c, s, e) ==
  IF e.exc # "" THEN "a step failed"
  ELSE IF e.ev # "train" /\ e.th # s.th THEN "an evaluation moved the network"
  ELSE IF e.ev # "train" /\ ~e.mode THEN "an evaluation left the network unable to train"
  ELSE CASE e.ev = "train" ->
         LET v == VLoss(c, s, e, e.steps) IN
         IF v # "" THEN v
         ELSE IF s.k > 0 THEN (IF e.th = s.th THEN "a training step changed nothing" ELSE "")
         ELSE LET g == TLCEval(Slopes(c, s.th, Counted(c, e.steps, e.T))) IN
           IF \E k \in 1..Len(g) : \E j \in 1..Len(g[k]) : ~SignOk(s.th[k][j], e.th[k][j], g[k][j], c.lr) THEN "the network did not move down its loss" ELSE ""
    [] e.ev = "eval" -> VLoss(c, s, e, e.steps)
    [] e.ev = "importance" ->
         IF c.last THEN "" (* the steps that count and those a mean is taken over differ; judged without *)
         ELSE IF Len(e.imp) # Len(c.fa) + Len(c.fs) THEN "a feature has no importance"
         ELSE IF \E i \in 1..Len(c.fa) : ~(IF c.disc THEN ImpOf(c, s, e.imp[i], e.steps, 1, c.ad, {[j \in 1..c.ad |-> IF j = i THEN Unit ELSE 0]})
                                           ELSE ImpOf(c, s, e.imp[i], e.steps, c.fa[i], Hi2(c.fa, i, c.ad), Fills(e.steps, c.fa[i], Hi2(c.fa, i, c.ad))))
              THEN "the importance of an action feature is not the loss it saves"
         ELSE IF \E i \in 1..Len(c.fs) : LET lo == c.ad + c.fs[i]  hi == c.ad + Hi2(c.fs, i, c.sd) IN ~ImpOf(c, s, e.imp[Len(c.fa) + i], e.steps, lo, hi, Fills(e.steps, lo, hi))
              THEN "the importance of a state feature is not the loss it saves" ELSE ""
    [] e.ev = "sensitivity" ->
         IF \E p \in Perms(e.B) : \A i \in 1..Len(c.fs) : Near(e.sen[i], Shifts(c, s.th, e, p, c.fs[i], Hi2(c.fs, i, c.sd)), 20) THEN ""
         ELSE "the sensitivity of features is not their shift under exchanged actions"
(* ---- sequence reward ---- *)
VQ(c, th, e) == IF ~Same(MeanQ(c, th, e.rows), e.q, 12) THEN "the values reported are not those of the best continuations" ELSE ""
VDist(c, th, e) ==
  LET n == Len(e.rows) IN
  IF Len(e.dist) # c.n THEN "an action is missing from the distribution"
  ELSE IF \E a \in 1..c.n : (e.dist[a] * n) < (Sure(c, th, e.rows, a, 6) * Unit) - (2 * n) \/ (e.dist[a] * n) > (Share(c, th, e.rows, a, 6) * Unit) + (2 * n)
       THEN "the action distribution is not the share of states where each action is best"
  ELSE IF Abs(SumSeq(e.dist) - Unit) > 4 THEN "the action distribution does not add up to one" ELSE ""
Told(e) == IF e.told THEN "" ELSE "observers were told other values than those returned"
VS2R(c, s, e) ==
  IF e.exc # "" THEN "a step failed"
  ELSE IF ~Near(e.mse, SeqLoss(c, s.th, e.rows), 60) THEN "the loss is not against the discounted reward of the valid steps"
  ELSE IF ~Near(e.ce, LenLoss(e.rows), 12) THEN "the length loss is not that of the valid lengths"
  ELSE IF e.ev = "eval" THEN
       (IF e.th # s.th \/ e.steps THEN "an evaluation moved the network" ELSE IF ~e.mode THEN "an evaluation left the network in another mode"
        ELSE Clauses({VQ(c, s.th, e), VDist(c, s.th, e), Told(e)}))
  ELSE IF ~e.steps /\ (\E k \in 1..c.L : Abs(LenSlope(c, e.rows)[k]) > 40) THEN "the length predictor did not train"
  ELSE IF s.k = 0 /\ \E j \in 1..Len(s.th.s) : ~SignOk(s.th.s[j], e.th.s[j], SlopeS(c, s.th, e.rows)[j], c.lr) THEN "the network did not move down its loss"
  ELSE IF s.k = 0 /\ \E k \in 1..c.L : \E a \in 1..c.n : ~SignOk(s.th.a[k][a], e.th.a[k][a], SlopeA(c, s.th, e.rows)[k][a], c.lr)
                 \/ (~(\E i \in 1..Len(e.rows) : k <= e.rows[i].len /\ e.rows[i].a[k] = a) /\ e.th.a[k][a] # s.th.a[k][a]) THEN "the network did not move down its loss"
  ELSE Clauses({Told(e), IF c.view THEN VQ(c, e.th, e) ELSE IF \E a \in 1..Len(e.q) : e.q[a] # 0 THEN "values reported though not asked for" ELSE ""})
(* ---- compressed policy ---- *)
VComp(c, s, e) ==
  LET n == Len(e.rows) IN
  IF e.exc # "" THEN "a step failed"
  ELSE IF ~e.kept THEN "fitting the policy moved the model it is fitted to"
  ELSE IF ~Near(e.mse, CompLoss(c, s.th, e.rows), 80) THEN "the loss is not against the planned values"
  ELSE IF e.acc * n > (MayAgree(c, s.th, e.rows) * Unit) + n \/ e.acc * n < (SureAgree(c, s.th, e.rows) * Unit) - n THEN "the accuracy is not the share of best actions that match"
  ELSE IF e.ev = "eval" THEN
       (IF e.th # s.th THEN "an evaluation moved the network" ELSE IF ~e.mode THEN "an evaluation left the network in another mode"
        ELSE Clauses({VQ(c, c.net, e), VDist(c, c.net, e), Told(e)}))
  ELSE IF s.k = 0 /\ \E a \in 1..c.n : \E j \in 1..Len(s.th[a]) : ~SignOk(s.th[a][j], e.th[a][j], CompSlope(c, s.th, e.rows)[a][j], c.lr) THEN "the network did not move down its loss"
  ELSE Told(e)
(* ---- ranking ---- *)
Metric(name, rows, e, vals) == IF ~Near(e[name], Mean(vals), 16) THEN "a ranking metric is wrong: " \o name ELSE ""
VRank(c, e) ==
  LET R == Telling(e.rows)
      over == [i \in 1..Len(R) |-> R[i].rank]
      base == [i \in 1..Len(R) |-> R[i].logged]
  IN IF e.exc # "" THEN "an evaluation failed"
     ELSE IF ~e.mode THEN "an evaluation left the network in another mode"
     ELSE IF ~Near(e.ce, ListLoss(e.rows), 30) THEN "the list loss is wrong"
     ELSE IF ~c.cpe THEN (IF e.metrics THEN "metrics though not asked for" ELSE "")
     ELSE IF Len(R) = 0 THEN "" (* nothing to rank *)
     ELSE Clauses({Metric("dcg", R, e, [i \in 1..Len(R) |-> Dcg(R[i].y, over[i])]), Metric("ndcg", R, e, [i \in 1..Len(R) |-> Ndcg(R[i].y, over[i])]),
                   Metric("map", R, e, [i \in 1..Len(R) |-> Ap(R[i].y, over[i])]), Metric("auc", R, e, [i \in 1..Len(R) |-> Auc(R[i].y, over[i])]),
                   Metric("base_dcg", R, e, [i \in 1..Len(R) |-> Dcg(R[i].y, base[i])]), Metric("base_ndcg", R, e, [i \in 1..Len(R) |-> Ndcg(R[i].y, base[i])]),
                   Metric("base_map", R, e, [i \in 1..Len(R) |-> Ap(R[i].y, base[i])]), Metric("base_auc", R, e, [i \in 1..Len(R) |-> Auc(R[i].y, base[i])])})
(* ---- memory pool, mixture likelihood, real networks ---- *)
Newest(s, cap) == IF Len(s) > cap THEN SubSeq(s, Len(s) - cap + 1, Len(s)) ELSE s
VPool(c, s, e) ==
  IF e.ev = "insert" THEN (IF e.size # Len(Newest(Append(s.kept, e.item), c.cap)) THEN "the pool does not count its sequences" ELSE "")
  ELSE IF e.exc # "" THEN "sampling failed"
  ELSE IF Len(e.rows) # e.n THEN "a sample has the wrong size"
  ELSE IF \E i \in 1..Len(e.rows) : ~\E k \in 1..Len(s.kept) : s.kept[k] = e.rows[i] THEN "a sampled sequence was never stored, was dropped, or is mixed up" ELSE ""
VGmm(c, e) ==
  LET T == Len(e.out) IN
  IF e.exc # "" THEN "the likelihood failed"
  ELSE IF e.reduce THEN (IF ~Near(e.out, Mean([i \in 1..Len(e.steps) |-> StepNll(c, e.steps[i].o, e.steps[i].nx)]), 40) THEN "the mean likelihood is wrong" ELSE "")
  ELSE IF e.shape # e.want THEN "a likelihood for each step was lost or invented"
  ELSE IF \E i \in 1..Len(e.steps) : ~Near(e.out[i], StepNll(c, e.steps[i].o, e.steps[i].nx), 40) THEN "the likelihood of a step is wrong" ELSE ""
VNet(e) ==
  IF e.exc # "" THEN "a network failed"
  ELSE IF \E i \in 1..Len(e.alone) : e.alone[i] > 3 THEN "a row's prediction depends on the other rows"
  ELSE IF \E i \in 1..Len(e.prefix) : e.prefix[i] > 3 THEN "a step's prediction depends on what comes later"
  ELSE IF \E i \in 1..Len(e.resume) : e.resume[i] > 3 THEN "a sequence continued from its hidden state is predicted differently"
  ELSE IF \E i \in 1..Len(e.mass) : Abs(e.mass[i] - Unit) > 4 THEN "mixture weights do not add up to one"
  ELSE IF ~e.positive THEN "a spread is not positive" ELSE ""
Verdict(c, s, e) ==
  CASE c.kind = "reward" -> VReward(c, s, e)
    [] c.kind = "imit" -> VImit(c, s, e)
    [] c.kind = "world" -> VWorld(c, s, e)
    [] c.kind = "s2r" -> VS2R(c, s, e)
    [] c.kind = "comp" -> VComp(c, s, e)
    [] c.kind = "rank" -> VRank(c, e)
    [] c.kind = "pool" -> VPool(c, s, e)
    [] c.kind = "gmm" -> VGmm(c, e)
    [] c.kind = "net" -> VNet(e)
    [] OTHER -> "unknown event"
Apply(c, s, e) ==
  CASE c.kind = "reward" -> IF e.ev = "train" THEN [s EXCEPT !.th = e.th] ELSE IF e.ev = "eval" THEN [s EXCEPT !.ev = See(c, s.ev, s.th, e.rows)]
                            ELSE LET r == Report(s.ev, s.th) IN [s EXCEPT !.ev = [r EXCEPT !.best = e.best, !.top = IF e.best = s.th THEN Min2(r.top, Mean(s.ev.loss)) ELSE s.ev.top]]
    [] c.kind = "imit" -> IF e.ev # "train" THEN s ELSE LET r == ImitTrain(c, s.k, s.acc, s.th, e.rows) IN [s EXCEPT !.k = r.k, !.acc = r.acc, !.th = e.th]
    [] c.kind \in {"world", "s2r", "comp"} -> [th |-> e.th, k |-> s.k + (IF e.ev = "train" THEN 1 ELSE 0)]
    [] c.kind = "pool" -> IF e.ev = "insert" THEN [s EXCEPT !.kept = Newest(Append(@, e.item), c.cap)] ELSE s
    [] OTHER -> s
INSTANCE TraceBase
====
