---- MODULE P27Trace ----
EXTENDS Reporting, TLC, Json, IOUtils
VARIABLES t, l, st, bad
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
Tab(c) == Table(c.rep, c.k)
(* ---- state: obs = open and closed windows per observer; dp = points per epoch; regs/got = direct observers ---- *)
Start(c) ==
  IF c.mode = "report" THEN [obs |-> Blank(Tab(c)), last |-> 0, per |-> -1, cur |-> [n |-> 0], done |-> 0, bi |-> 0]
  ELSE IF c.mode = "route" THEN [regs |-> {}, lists |-> [i \in 1..c.leaves |-> <<>>]]
  ELSE [o |-> Fresh, seen |-> 0]
(* ---- reporters ---- *)
Real(kw) == SelectSeq(kw, LAMBDA x : x.none = 0)
FirstBad(c, kw) == LET B == {i \in 1..Len(kw) : kw[i].key # "epoch_end" /\ kw[i].key \notin Keys(Tab(c))} IN IF B = {} THEN 0 ELSE SMin(B)
Idx(c, nm) == CHOOSE i \in 1..Len(Tab(c)) : Tab(c)[i].nm = nm /\ Tab(c)[i].kind = "mean"
Points(c, obs) == Len(obs[Idx(c, "td_loss")].win)
Ended(c, s, obs) == IF c.rep \in {"dqn", "crr"} THEN [s EXCEPT !.obs = obs, !.last = Points(c, obs), !.per = Points(c, obs) - s.last] ELSE [s EXCEPT !.obs = obs]
RECURSIVE Logged(_, _, _, _)
Logged(c, s, kw, n) == IF n = 0 THEN s ELSE LET q == Logged(c, s, kw, n - 1) IN IF kw[n].key = "epoch_end" THEN Ended(c, q, TLCEval(Ends(Tab(c), q.obs))) ELSE [q EXCEPT !.obs = Report(Tab(c), @, kw[n].key, kw[n].rows)]
AfterLog(c, s, e) == LET kw == Real(e.kw)  b == FirstBad(c, kw) IN TLCEval(Logged(c, s, kw, IF b = 0 THEN Len(kw) ELSE b - 1))
SameNum(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], tol)
Times(ws, w) == Cardinality({i \in 1..Len(ws) : ws[i][1] = w[1] /\ ws[i][2] = w[2]})
SameWrites(c, want, got) ==
  /\ Len(want) = Len(got)
  /\ \A i \in 1..Len(want) : \E j \in 1..Len(got) : got[j].f = want[i][1] /\ got[j].tag = want[i][2] /\ SameNum(got[j].v, want[i][3], 4)
  /\ \A j \in 1..Len(got) : \E i \in 1..Len(want) : got[j].f = want[i][1] /\ got[j].tag = want[i][2] /\ SameNum(got[j].v, want[i][3], 4)
Val(e, k) == LET S == {i \in 1..Len(e.kw) : e.kw[i].key = k /\ e.kw[i].none = 0} IN IF S = {} THEN <<>> ELSE e.kw[SMin(S)].rows
Has(e, k) == \E i \in 1..Len(e.kw) : e.kw[i].key = k /\ e.kw[i].none = 0
SameRows(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : SameNum(a[i], b[i], tol)
(* the content a learner reports belongs to the batch it is training on *)
Content(c, s, e) ==
  LET b == s.cur IN
  IF c.train = 0 \/ b.n = 0 THEN ""
  ELSE IF Has(e, "logged_rewards") /\ ~SameRows(Val(e, "logged_rewards"), b.rew, 4) THEN "a reward was reported that is not of this batch"
  ELSE IF Has(e, "logged_propensities") /\ ~SameRows(Val(e, "logged_propensities"), b.prop, 4) THEN "a propensity was reported that is not of this batch"
  ELSE IF Has(e, "logged_actions") /\ ~SameRows(Val(e, "logged_actions"), b.act, 4) THEN "an action was reported that is not of this batch"
  ELSE IF Has(e, "model_values") /\ Len(b.q) > 0 /\ ~SameRows(Val(e, "model_values"), b.q, 8) THEN "the reported values are not the model's"
  ELSE IF Has(e, "model_values_on_logged_actions") /\ Len(b.qa) > 0 /\ ~SameRows(Val(e, "model_values_on_logged_actions"), b.qa, 8) THEN "the reported values of the logged actions are not the model's"
  ELSE IF Has(e, "model_action_idxs") /\ (LET m == Val(e, "model_action_idxs")  q == Val(e, "model_values") IN
            \E i \in 1..Len(m) : LET a == (m[i][1] \div Unit) + 1 IN
              a \notin 1..Len(q[i]) \/ b.mask[i][a] = 0 \/ \E j \in 1..Len(q[i]) : b.mask[i][j] # 0 /\ q[i][j] > q[i][a] + 4) THEN "the reported model action is not the best possible one"
  ELSE ""
Log(c, s, e) ==
  LET kw == Real(e.kw)  b == FirstBad(c, kw)  n == AfterLog(c, s, e)  ct == Content(c, s, e) IN
  IF b > 0 /\ e.exc = "" THEN "an undeclared value was accepted"
  ELSE IF b = 0 /\ e.exc # "" THEN "a value could not be reported"
  ELSE IF ct # "" THEN ct
  ELSE IF ~SameWrites(c, NewWrites(Tab(c), s.obs, n.obs, c.acts), e.w) THEN "the summary does not show what was reported" ELSE ""
Flush(c, s, e) ==
  IF e.exc # "" THEN "an epoch could not be ended"
  ELSE IF ~SameWrites(c, NewWrites(Tab(c), s.obs, TLCEval(Ends(Tab(c), s.obs)), c.acts), e.w) THEN "the summary of an epoch does not show what was reported" ELSE ""
StdOk(x, xs) == IF Len(xs) = 1 THEN x = 999999937 ELSE Near(Mul(x, x), VarOf(xs), 128)
SeeOne(c, s, g) ==
  LET T == Tab(c)
      S == {i \in 1..Len(T) : T[i].nm = g.nm}
  IN IF S = {} THEN "an unexpected metric"
     ELSE LET i == SMin(S)  ws == s.obs[i].win  A == Len(c.acts) IN
       CASE g.kind = "mean" -> IF Len(g.v) # Len(ws) THEN "a window is missing or repeated" ELSE IF \E j \in 1..Len(ws) : ~Near(g.v[j], MeanOf(Flat(ws[j])), 4) THEN "the mean of a window is wrong" ELSE ""
         [] g.kind = "recent" -> IF ~SameNum(g.v, Recent(ws, 1000000), 2) THEN "the recent values are wrong" ELSE ""
         [] g.kind = "count" -> IF \E a \in 1..A : Len(g.v[a]) # Len(ws) \/ \E j \in 1..Len(ws) : g.v[a][j] # CountOf(ws[j], a - 1) THEN "the count of an action is wrong"
              ELSE IF \E a \in 1..A : Len(g.dist[a]) # Len(ws) \/ \E j \in 1..Len(ws) : ~Near(g.dist[a][j], (CountOf(ws[j], a - 1) * Unit) \div Len(Flat(ws[j])), 2) THEN "the distribution of actions is wrong"
              ELSE IF Len(ws) > 0 /\ (LET all == SumSeq([j \in 1..Len(ws) |-> Len(Flat(ws[j]))]) IN \E a \in 1..A : ~Near(g.cum[a], (SumSeq([j \in 1..Len(ws) |-> CountOf(ws[j], a - 1)]) * Unit) \div all, 2)) THEN "the overall distribution of actions is wrong" ELSE ""
         [] g.kind = "total" -> IF Len(ws) > 0 /\ (LET all == SumSeq([j \in 1..Len(ws) |-> Len(Flat(ws[j]))]) IN \E a \in 1..A : ~Near(g.cum[a], (SumSeq([j \in 1..Len(ws) |-> CountOf(ws[j], a - 1)]) * Unit) \div all, 2)) THEN "the overall distribution of actions is wrong" ELSE ""
         [] g.kind = "fns" -> IF \E a \in 1..A : Len(g.mean[a]) # Len(ws) \/ Len(g.std[a]) # Len(ws) THEN "a window is missing or repeated"
              ELSE IF \E a \in 1..A : \E j \in 1..Len(ws) : ~Near(g.mean[a][j], MeanOf(Column(ws[j], a)), 4) \/ ~StdOk(g.std[a][j], Column(ws[j], a)) THEN "the statistics of an action are wrong" ELSE ""
         [] g.kind = "list" -> IF ~SameRows(g.v, Cat(Cat(ws)), 0) THEN "a listed value is missing, repeated or changed" ELSE ""
         [] OTHER -> "unknown metric"
See(c, s, e) ==
  LET B == {i \in 1..Len(e.got) : SeeOne(c, s, e.got[i]) # ""}
      want == {Tab(c)[i].nm : i \in {j \in 1..Len(Tab(c)) : Tab(c)[j].kind \in {"mean", "recent", "count", "total", "fns", "list"}}}
  IN IF e.exc # "" THEN "a report could not be read"
     ELSE IF {e.got[i].nm : i \in 1..Len(e.got)} # want THEN "a metric is missing"
     ELSE IF B # {} THEN SeeOne(c, s, e.got[SMin(B)])
     ELSE IF c.rep \in {"dqn", "crr"} /\ e.per # s.per THEN "the points of the epoch are miscounted" ELSE ""
(* in training every batch is reported once *)
Batch(c, s, e) == IF s.cur.n > 0 /\ s.done # (IF c.rare = 0 \/ (s.cur.i % c.every) = 0 THEN 1 ELSE 0) THEN "a batch was not reported exactly once" ELSE ""
(* ---- observers registered directly ---- *)
Known(c, k) == k \in {c.keys[i] : i \in 1..Len(c.keys)}
TypeOf(c, k) == c.types[CHOOSE i \in 1..Len(c.keys) : c.keys[i] = k]
Shown(c, x) == IF TypeOf(c, x.key) = "tensor" /\ x.t \in {"num", "ten"} THEN [t |-> "ten", sh |-> IF x.sh = <<>> THEN <<1>> ELSE x.sh, v |-> x.v, g |-> 0]
               ELSE [t |-> x.t, sh |-> x.sh, v |-> x.v, g |-> x.g]
(* leaves[i] = the elementary observers inside registered observer i: <<leaf, keys>> *)
Receives(c, s, k) == {p \in UNION {{<<i, j>> : j \in 1..Len(c.tree[i])} : i \in s.regs} : k \in {c.tree[p[1]][p[2]].keys[q] : q \in 1..Len(c.tree[p[1]][p[2]].keys)}}
LeafOf(c, p) == c.tree[p[1]][p[2]].leaf
BadKey(c, kw) == LET B == {i \in 1..Len(kw) : ~Known(c, kw[i].key)} IN IF B = {} THEN 0 ELSE SMin(B)
Sent(c, e) == LET kw == Real(e.kw)  b == BadKey(c, kw) IN IF b = 0 THEN kw ELSE SubSeq(kw, 1, b - 1)
Delivered(c, s, e, leaf) ==
  LET kw == Sent(c, e)
      m == SelectSeq(kw, LAMBDA x : \E p \in Receives(c, s, x.key) : LeafOf(c, p) = leaf)
  IN [i \in 1..Len(m) |-> [key |-> m[i].key, val |-> Shown(c, m[i])]]
SameMsg(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i].key = b[i].key /\ a[i].val.t = b[i].val.t /\ a[i].val.sh = b[i].val.sh /\ a[i].val.v = b[i].val.v /\ a[i].val.g = b[i].val.g
Notify(c, s, e) ==
  IF BadKey(c, Real(e.kw)) > 0 /\ e.exc = "" THEN "an undeclared value was accepted"
  ELSE IF BadKey(c, Real(e.kw)) = 0 /\ e.exc # "" THEN "a value could not be reported"
  ELSE IF \E f \in 1..c.leaves : ~SameMsg(e.got[f], Delivered(c, s, e, f)) THEN "an observer did not receive each of its values once" ELSE ""
(* ---- windows fed directly ---- *)
Closed(e, w) == Len(e.closed) = Len(w) /\ \A i \in 1..Len(w) : e.closed[i] = w[i]
StepO(c, s, e) == IF e.ev = "value" THEN Feed(s.o, c.k, e.v) ELSE IF e.ev = "close" \/ c.ends = 1 THEN Close(s.o) ELSE s.o
Window(c, s, e) == LET n == StepO(c, s, e) IN
  IF e.exc # "" THEN "a value could not be collected" ELSE IF ~Closed(e, SubSeq(n.win, Len(s.o.win) + 1, Len(n.win))) THEN "a window does not hold exactly the values since the last one" ELSE ""
(* ---- evaluation of rankings: the four measures of a batch, whatever else is computed ---- *)
Ranking(c, e) ==
  LET adv == [i \in 1..Len(e.reward) |-> e.reward[i] - e.base[i]] IN
  IF e.exc # "" THEN "an evaluation failed"
  ELSE IF Len(e.loss) # 1 \/ Len(e.adv) # 1 \/ Len(e.logged) # 1 \/ Len(e.ranked) # 1 THEN "a measure of the evaluation was not reported once"
  ELSE IF ~SameNum(e.adv[1], adv, 4) THEN "the advantages are wrong"
  ELSE IF ~SameNum(e.loss[1], <<IF e.hasbase = 1 THEN SumSeq([i \in 1..Len(adv) |-> Mul(adv[i], adv[i])]) \div Len(adv) ELSE 0>>, 16) THEN "the baseline's loss is wrong"
  ELSE IF ~SameNum(e.logged[1], e.probs, 4) THEN "the probabilities of the logged slates are wrong"
  ELSE IF ~SameNum(e.ranked[1], e.rprobs, 4) THEN "the probabilities of the ranked slates are wrong"
  ELSE IF e.train0 # e.train1 THEN "an evaluation changed the mode of a network"
  ELSE IF e.pages # (IF c.cpe = 1 THEN 1 ELSE 0) THEN "the evaluation page was not reported as configured"
  ELSE IF c.cpe = 1 /\ e.rows # e.total THEN "the evaluation page has lost or repeated rows" ELSE ""
Recents(e) == IF e.exc # "" THEN "an aggregate failed" ELSE IF ~SameNum(e.got, Recent(e.win, e.size), 2) THEN "the recent values are wrong" ELSE ""
Verdict(c, s, e) ==
  CASE e.ev = "log" -> Log(c, s, e)
    [] e.ev = "flush" -> Flush(c, s, e)
    [] e.ev = "see" -> See(c, s, e)
    [] e.ev = "batch" -> Batch(c, s, e)
    [] e.ev = "add" -> IF e.exc # "" THEN "an observer was refused" ELSE ""
    [] e.ev = "notify" -> Notify(c, s, e)
    [] e.ev = "values" -> IF ~SameMsg(e.got, s.lists[e.leaf]) THEN "the collected list is wrong" ELSE ""
    [] e.ev = "reset" -> ""
    [] e.ev \in {"value", "end", "close"} -> Window(c, s, e)
    [] e.ev = "ranking" -> Ranking(c, e)
    [] e.ev = "recent" -> Recents(e)
    [] e.ev = "wrongkey" -> IF e.exc = "" THEN "an aggregate accepted another metric's values" ELSE ""
    [] OTHER -> "unknown event"
Apply(c, s, e) ==
  CASE e.ev = "log" -> [AfterLog(c, s, e) EXCEPT !.done = @ + (IF Has(e, c.mark) THEN 1 ELSE 0)]
    [] e.ev = "flush" -> Ended(c, s, TLCEval(Ends(Tab(c), s.obs)))
    [] e.ev = "batch" -> [s EXCEPT !.cur = e, !.done = 0]
    [] e.ev = "add" -> [s EXCEPT !.regs = @ \cup {e.i}]
    [] e.ev = "notify" -> [s EXCEPT !.lists = [f \in 1..c.leaves |-> s.lists[f] \o Delivered(c, s, e, f)]]
    [] e.ev = "reset" -> [s EXCEPT !.lists[e.leaf] = <<>>]
    [] e.ev \in {"value", "end", "close"} -> [s EXCEPT !.o = StepO(c, s, e)]
    [] OTHER -> s
INSTANCE TraceBase
====
