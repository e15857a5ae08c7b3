---- MODULE P34Trace ----
EXTENDS Slates, TLC, Json, IOUtils
VARIABLES t, l, st, bad
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
Start(c) == IF c.kind = "law" THEN [w |-> c.w] ELSE [w |-> <<>>]
Apply(c, s, e) == IF c.kind = "law" /\ e.ev = "set" THEN [s EXCEPT !.w = e.w] ELSE s
Rep(w, n) == [k \in 1..n |-> w]
LawOf(c, s, n) == IF Len(c.rows) > 0 THEN SubSeq(c.rows, 1, n) ELSE Rep(s.w, n)
Tot(f) == SumSeq(f)
(* ---- laws ---- *)
VLaw(c, s, e) ==
  IF e.ev = "set" THEN ""
  ELSE IF e.exc # "" THEN "a law over slates refused: " \o e.ev
  ELSE
  CASE e.ev = "prob" -> IF Near(e.p, Chance(LawOf(c, s, Len(e.s)), c.greedy, e.s), 3) THEN "" ELSE "a slate has another chance than drawing its items one by one"
    [] e.ev = "space" ->
        LET L == LawOf(c, s, e.n)
            got == 1..Len(e.all)
            want == {x \in AllSlates(e.n, c.m) : Chance(L, c.greedy, x) > 0}
            (* a greedy law has one slate *)
        IN IF \E j \in got : Len(e.all[j].s) # e.n \/ ~IsSlate(e.all[j].s, c.m) THEN "the slate space has something that is no slate"
           ELSE IF \E i, j \in got : i # j /\ e.all[i].s = e.all[j].s THEN "the slate space has a slate twice"
           ELSE IF \E j \in got : ~Near(e.all[j].p, Chance(L, c.greedy, e.all[j].s), 3) THEN "a slate of the space has another chance"
           ELSE IF e.max <= 0 \/ c.greedy THEN (IF want \subseteq {e.all[j].s : j \in got} THEN "" ELSE "the slate space misses a slate")
           ELSE IF Len(e.all) > e.max THEN "the slate space is larger than allowed" ELSE IF Len(e.all) = 0 THEN "the slate space misses a slate" ELSE ""
    [] e.ev = "expect" ->
        LET E == TLCEval(Expect(LawOf(c, s, e.n), c.greedy, e.n)) IN
        IF Len(e.E) = e.n /\ \A k \in 1..e.n : \A i \in 1..c.m : Near(e.E[k][i], E[k][i], 64) THEN "" ELSE "the chance of an item at a slot is not that of the slates"
    [] e.ev = "rewards" ->
        LET E == TLCEval(Expect(LawOf(c, s, e.n), c.greedy, e.n)) IN
        IF Len(e.v) = e.n /\ \A k \in 1..e.n : Near(e.v[k], SumSeq([i \in 1..c.m |-> Mul(E[k][i] \div 128, e.r[i])]), 8 + c.m) THEN "" ELSE "the expected reward of a slot is not the mean over its items"
    [] e.ev = "draw" -> IF Len(e.s) = e.n /\ IsSlate(e.s, c.m) /\ Chance(LawOf(c, s, e.n), c.greedy, e.s) > 0 THEN "" ELSE "a drawn slate cannot be drawn under the law"
    [] e.ev = "draws" ->
        LET L == LawOf(c, s, e.n)
            S == TLCEval([x \in AllSlates(e.n, c.m) |-> Chance(L, c.greedy, x)])
            cnt(x) == LET H == {j \in 1..Len(e.all) : e.all[j].s = x} IN IF H = {} THEN 0 ELSE e.all[CHOOSE j \in H : TRUE].c
        IN IF \E j \in 1..Len(e.all) : e.all[j].s \notin DOMAIN S \/ S[e.all[j].s] = 0 THEN "a drawn slate cannot be drawn under the law"
           ELSE IF \E x \in DOMAIN S : Abs((cnt(x) * 1000) \div e.N - ((S[x] \div 1024) * 1000) \div 1024) > 100 THEN "slates are drawn with other chances than the law's" ELSE ""
    [] OTHER -> "unknown event"
(* many slots: the table is estimated by sampling; every slot holds one item, every item takes one slot *)
VMany(c, e) ==
  IF e.exc # "" THEN "a law over slates refused: expect"
  ELSE IF Len(e.E) # e.n \/ (\E k \in 1..e.n : ~Near(SumSeq(e.E[k]), Fine, 8)) \/ (\E i \in 1..c.m : ~Near(SumSeq([k \in 1..e.n |-> e.E[k][i]]), Fine, 8)) THEN "the chance of an item at a slot is not that of the slates"
  ELSE IF \E i \in 1..c.m : ~Near(e.E[1][i], Share(<<c.w[i], SumSeq(c.w)>>), 10000) THEN "the chance of an item at a slot is not that of the slates" ELSE ""
(* ---- metrics ---- *)
VMetric(c, e) ==
  LET rs == [k \in 1..Len(e.s) |-> c.rel[e.s[k]]]
      n == Len(e.s)
      z == Ideal(c.rel, n)
      wt == [k \in 1..n |-> CASE e.name = "sum" -> Unit [] e.name = "dcg" -> InvLog2(k) [] e.name = "ndcg" -> (IF z = 0 THEN 0 ELSE Div(InvLog2(k), z)) [] OTHER -> Unit \div k]
      vs == [k \in 1..n |-> CASE e.name = "sum" -> rs[k] * Unit [] e.name \in {"dcg", "ndcg"} -> Gain(rs[k]) * Unit [] OTHER -> Stops(rs, c.top)[k]]
  IN IF e.exc # "" THEN "a metric failed"
     ELSE CASE e.how = "weights" -> (IF Len(e.v) = n /\ \A k \in 1..n : Near(e.v[k], wt[k], 8) THEN "" ELSE "the metric weighs slots otherwise")
            [] e.how = "values" -> (IF Len(e.v) = n /\ \A k \in 1..n : Near(e.v[k], vs[k], 12) THEN "" ELSE "the metric values relevances otherwise")
            [] OTHER -> (IF Len(e.v) = 1 /\ Near(e.v[1], Metric(e.name, rs, c.rel, c.top), 60) THEN "" ELSE "the metric of a slate is another")
(* ---- weights of rewards ---- *)
VWeigh(e) ==
  LET m == Len(e.r)
      want == [i \in 1..m |-> CASE e.how = "same" \/ (e.how = "rank" /\ e.a < 0) -> (e.r[i] * Unit) \div 4
                                [] e.how = "rank" -> RankWeight(e.a, RankOf(e.r, i))
                                [] OTHER -> ((e.r[i] ^ e.a) * Unit) \div (4 ^ e.a)]
  IN IF e.exc # "" \/ Len(e.v) # m THEN "turning rewards into weights failed"
     ELSE IF \E i \in 1..m : ~Near(e.v[i], want[i], 4) THEN "rewards are turned into other weights"
     ELSE IF e.is # e.fix THEN "a deterministic policy is not"
     ELSE IF \E i \in 1..m : e.kept[i] # (e.r[i] * Unit) \div 4 THEN "the rewards were changed" ELSE ""
(* ---- estimators ---- *)
OddsOf(p, s) == IF p.p >= 0 THEN <<p.p, 16>> ELSE IF ~p.has THEN <<0, 1>> ELSE Odds(p.rows, p.greedy, s)
Score(c, z, s) == c.bias + SumSeq([k \in 1..Len(s) |-> c.coef[k] * z.x[s[k]]])            \* in eighths
Imp(c, z) == Weight(c, OddsOf(z.tgt, z.s), OddsOf(z.log, z.s))
SlotWeights(z) == [k \in 1..z.n |-> Mul(IF z.pw = <<>> THEN Unit ELSE (z.pw[k] * Unit) \div 4, IF z.pp = <<>> THEN Unit ELSE (z.pp[k] * Unit) \div 4)]
W(c, z) ==
  CASE c.what \in {"ips", "dr"} -> Imp(c, z)
    [] c.what = "pbm" -> PositionWeight(c, Expect(z.tgt.rows, z.tgt.greedy, z.n), Expect(z.log.rows, z.log.greedy, z.n), z.s, SlotWeights(z))
    [] c.what = "proj" -> ProjectionWeight(c, Expect(z.tgt.rows, z.tgt.greedy, z.n), Expect(z.log.rows, z.log.greedy, z.n), z.s)
    [] OTHER -> Unit
R8(x) == x * (Unit \div 8)
(* value of the model under the target policy, in Unit: eighths times chances *)
Model(c, z) ==
  LET S == AllSlates(z.n, z.m)
      f == TLCEval([s \in S |-> Score(c, z, s) * Chance(z.tgt.rows, z.tgt.greedy, s)])
  IN SumSet(f, S) \div 1024
Taught(c) == 1..c.take
VEst(c, e) ==
  LET N == Len(c.sam)
      model == c.what \in {"dm", "dr"}
      able == model /\ c.trainer /\ e.feat /\ c.take > 0
      ids == IF able /\ c.take < N THEN [j \in 1..(N - c.take) |-> j + c.take] ELSE [j \in 1..N |-> j]
      Z == [j \in 1..Len(ids) |-> c.sam[ids[j]]]
      w == TLCEval([j \in 1..Len(Z) |-> W(c, Z[j])])
      keep == Kept(w)
      r == [j \in 1..Len(Z) |-> R8(Z[j].r)]
      tot == TLCEval([j \in 1..Len(Z) |-> IF w[j] = None THEN 0
               ELSE CASE c.what = "dm" -> Model(c, Z[j])
                      [] c.what = "dr" -> (IF able THEN Mul(r[j] - R8(Score(c, Z[j], Z[j].s)), w[j]) + Model(c, Z[j]) ELSE Mul(r[j], w[j]))
                      [] OTHER -> Mul(r[j], w[j])])
      gts == SelectSeq(keep, LAMBDA j : Z[j].gt # <<>>)
      ws == At(w, keep)
      wsum == SumSeq(ws)
      big == MaxSeq([j \in 1..Len(Z) |-> IF w[j] = None THEN 0 ELSE w[j]])
      tol == 30 + (big \div 512)
      feats(j) == [k \in 1..c.sam[j].n |-> c.sam[j].x[c.sam[j].s[k]]]
      lesson(a, b) == [x |-> [j \in 1..(b - a) |-> feats(a + j)], y |-> [j \in 1..(b - a) |-> c.sam[a + j].r]]
      first == lesson(0, c.take)
      held == IF c.take < N THEN lesson(c.take, N) ELSE first
  IN IF able /\ (Len(e.taught) # 1 \/ (Len(e.taught) = 1 /\ e.taught[1] # [x |-> first.x, y |-> first.y, vx |-> held.x, vy |-> held.y])) THEN "the model was taught from other samples than the first part of the log"
     ELSE IF ~able /\ e.taught # <<>> THEN "the model was taught from other samples than the first part of the log"
     ELSE IF c.what = "dm" /\ ~able THEN (IF e.none THEN "" ELSE "a direct estimate was made without a model")
     ELSE IF Len(keep) = 0 THEN (IF e.none \/ c.what = "dr" THEN "" ELSE "an estimate was made without any usable sample")
     ELSE IF c.weighted /\ wsum = 0 THEN ""
     ELSE IF e.exc # "" THEN "an estimator failed"
     ELSE IF e.none THEN "an estimator gave no estimate"
     ELSE IF c.weighted /\ wsum < 200 THEN ""
     ELSE IF ~Near(e.log, Average(At(r, keep)), 4) THEN "the average logged reward is another"
     ELSE IF gts # <<>> /\ ~Near(e.gt, Average([j \in 1..Len(gts) |-> R8(Z[gts[j]].gt[1])]), 4) THEN "the average true reward is another"
     ELSE IF ~Near(e.est, Estimate(c.weighted, At(tot, keep), ws), tol) THEN "the estimate is not that of its formula"
     ELSE IF c.weighted THEN (IF Near(e.w, Average(ws), tol) THEN "" ELSE "the reported weight is another")
     ELSE IF e.w # Len(keep) * Unit THEN "the reported weight is another" ELSE ""
(* the estimator of the paper: 1 for a policy on its own log; the ratio of chances when there is one slot *)
VPaper(c, e) ==
  LET z == c.sam[1] IN
  IF e.exc # "" \/ e.none THEN "an estimator failed"
  ELSE IF Near(e.est, Mul(R8(z.r), Imp(c, z)), 30) THEN "" ELSE "the pseudo-inverse estimate is not that of the paper"
(* a model right about every slate needs no correction *)
VExact(c, e) ==
  IF e.exc # "" \/ e.none THEN "an estimator failed"
  ELSE IF Near(e.est, Average([j \in 1..Len(c.sam) |-> Model(c, c.sam[j])]), 30) THEN "" ELSE "a doubly robust estimate with an exact model is not the model's"
Verdict(c, s, e) ==
  CASE c.kind = "law" -> VLaw(c, s, e)
    [] c.kind = "many" -> VMany(c, e)
    [] c.kind = "metric" -> VMetric(c, e)
    [] c.kind = "weigh" -> VWeigh(e)
    [] e.ev = "paper" -> VPaper(c, e)
    [] e.ev = "exact" -> VExact(c, e)
    [] OTHER -> VEst(c, e)
INSTANCE TraceBase
====
