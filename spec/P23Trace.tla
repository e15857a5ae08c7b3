---- MODULE P23Trace ----
EXTENDS OffPolicy, Json, IOUtils
VARIABLES t, l, st, bad
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
Undefined == 999999937
First(X) == LET B == {i \in 1..Len(X) : X[i] # ""} IN IF B = {} THEN "" ELSE X[SMin(B)]
Big(x) == Abs(x) \div Unit
(* ---- decisions ---- *)
Chosen(S, c, how, n, rmax) ==                   \* thresholds whose estimated error is least, as far as one can tell
  IF n = 0 THEN {-1}
  ELSE LET cuts == Cuts(S, c, n)  err == TLCEval([j \in 1..n |-> IF how = "switch" THEN Error(S, c, cuts[j], rmax, Switch) ELSE Error(S, c, cuts[j], rmax, SwitchDR)])
           best == SMin({err[j] : j \in 1..n})
       IN {cuts[j] : j \in {k \in 1..n : err[k] <= best + 40 + (best \div 500)}}
Values(S, c) == CASE c.what = "dm" -> {[i \in 1..Len(S) |-> Direct(S[i])]}
                  [] c.what \in {"ips", "wips"} -> {[i \in 1..Len(S) |-> Inverse(S[i], c)]}
                  [] c.what = "dr" -> {[i \in 1..Len(S) |-> Doubly(S[i], c)]}
                  [] c.what = "switch" -> {[i \in 1..Len(S) |-> Switch(S[i], c, th)] : th \in Chosen(S, c, "switch", c.cuts, Top(S, c.rmax))}
                  [] c.what = "switchdr" -> {[i \in 1..Len(S) |-> SwitchDR(S[i], c, th)] : th \in Chosen(S, c, "switchdr", c.cuts, Top(S, c.rmax))}
Total(S, c) == SumSeq([i \in 1..Len(S) |-> Own(S[i], c)])
Defined(S, c) == c.what # "wips" \/ Total(S, c) > 0
Wanted(S, c) == {IF c.what = "wips" THEN Frac(Unit, SumSeq(f), Total(S, c)) ELSE Mean(f) : f \in Values(S, c)}
Truths(S) == LET B == {i \in 1..Len(S) : S[i].gt # Undefined} IN IF B = {} THEN Undefined ELSE AddUp(B, [i \in 1..Len(S) |-> S[i].gt]) \div Cardinality(B)
BanditOk(S, c, got) == \E w \in Wanted(S, c) : Near(got, w, 16)
Bandit(c, e) ==
  LET S == e.S  score == Mean([i \in 1..Len(S) |-> S[i].r])  gt == Truths(S) IN
  IF ~Defined(S, c) THEN ""
  ELSE IF e.exc # "" THEN "estimating failed"
  ELSE IF ~BanditOk(S, c, e.est) THEN "the estimate is wrong"
  ELSE IF ~Near(e.logged, score, 2) THEN "the logged reward is wrong"
  ELSE IF (gt = Undefined) # (e.gt = Undefined) \/ (gt # Undefined /\ ~Near(e.gt, gt, 2)) THEN "the true reward is wrong"
  ELSE IF e.halves THEN (IF \E f \in 1..Len(e.folds) : \E i \in 1..Len(e.folds[f].fit) : \E j \in 1..Len(e.folds[f].ask) : e.folds[f].fit[i] = e.folds[f].ask[j] THEN "a decision is judged by a model that saw it"
                         ELSE IF \E i \in 1..Len(S) : ~\E f \in 1..Len(e.folds) : \E j \in 1..Len(e.folds[f].ask) : e.folds[f].ask[j] = i THEN "a decision is left out" ELSE "")
  ELSE IF e.weight # Len(S) THEN "the number of decisions is wrong"
  ELSE IF score < -64 THEN (IF e.norm = 0 THEN "" ELSE "an estimate is relative to a score that is not positive")
  ELSE IF score > 400 /\ ~Near(Mul(e.norm, score), e.est, 16 + 4 * Big(e.norm)) THEN "the estimate is not relative to the logged reward" ELSE ""
(* ---- episodes ---- *)
Slack(E) == 24 + 8 * Len(E) * Longest(E)
Sequence(c, e) ==
  LET E == e.E  want == CASE c.what = "dm" -> Starts(E, c.V) [] c.what \in {"is", "wis"} -> Sampling(E, c) [] OTHER -> Correct(E, c, c.V, c.Q) IN
  IF e.exc # "" THEN "estimating failed"
  ELSE IF ~Near(e.est, want, Slack(E)) THEN "the estimate is wrong"
  ELSE IF ~Near(e.logged, Logged(E, c.g), Slack(E)) THEN "the logged reward is wrong"
  ELSE IF ~Near(e.gt, Starts(E, c.T), 4) THEN "the true reward is wrong" ELSE ""
RECURSIVE WeightOf(_, _)
WeightOf(g, n) == IF n = 0 THEN 4096 ELSE (WeightOf(g, n - 1) * g) \div 8
(* ---- density ratios by two networks playing against each other: nu (v) and zeta ---- *)
Half(x, d) == CASE d = 3 -> (2 * Mul(Abs(x), Sqrt(Abs(x)))) \div 3  [] d = 4 -> Mul(x, x) \div 2  [] d = 6 -> Mul(Abs(x), Mul(x, x)) \div 3     \* |x|^p / p, p = d / 2
Dual(d) == CASE d = 3 -> 6 [] d = 4 -> 4 [] d = 6 -> 3                                                                                        \* 1/p + 1/q = 1
Could(c, s) == {a \in 1..Len(c.pi[s]) : c.pi[s][a] > 0}
NextNu(c, v, x) == IF c.avg THEN {SumSeq([a \in 1..Len(c.pi[x.n]) |-> Mul(c.pi[x.n][a], v[x.n][a])])} ELSE {v[x.n][a] : a \in Could(c, x.n)}
Delta(c, v, x, nx) == v[x.s][x.a] - (c.g * nx) \div 8
Start0(c, v, x, a0) == ((8 - c.g) * v[x.i][a0]) \div 8
Determined(c, v, x, nx, a0) == Half(Delta(c, v, x, nx), c.deg) - Start0(c, v, x, a0)
Playing(c, v, z, x, nx, a0) == Mul(Delta(c, v, x, nx), z[x.s][x.a]) - Half(z[x.s][x.a], Dual(c.deg)) - Start0(c, v, x, a0)
(* what one sampled transition can contribute: <<weight, loss of zeta, loss of nu>> *)
Shares(c, e) == UNION {LET x == c.T[i] IN {<<WeightOf(c.g, x.t), Playing(c, e.v0, e.z0, x, nx, a0), IF c.det THEN Determined(c, e.v0, x, nx, a0) ELSE Playing(c, e.v0, e.z1, x, nx, a0)>> :
                                            nx \in NextNu(c, e.v0, x), a0 \in Could(c, x.i)} : i \in 1..Len(c.T)}
Joint(p, q, k) == (p[1] * p[k] + q[1] * q[k]) \div (p[1] + q[1])
DiceStep(c, e) ==
  LET S == Shares(c, e)
      ok == IF c.batch = 1 THEN \E p \in S : Near(e.zl, -p[2], 24) /\ Near(e.vl, p[3], 24)
            ELSE \E p \in S, q \in S : Near(e.zl, -Joint(p, q, 2), 24) /\ Near(e.vl, Joint(p, q, 3), 24)
  IN IF ~ok THEN "the losses are not those of a batch of the log" ELSE IF e.v0 = e.v1 /\ e.z0 = e.z1 THEN "nothing was learnt" ELSE ""
Dice(c, e) ==
  LET Weighed(X) == SumSeq([k \in 1..Len(X) |-> (WeightOf(c.g, k - 1) * Mul(X[k].r, e.z[X[k].s][X[k].a])) \div 4096]) IN
  IF e.exc # "" THEN "the estimator failed"
  ELSE IF ~Near(e.est, Mean([i \in 1..Len(e.E) |-> Weighed(e.E[i])]), 24) THEN "the estimate is not the rewards weighed by the density ratios"
  ELSE IF ~Near(e.logged, Logged(e.E, c.g), Slack(e.E)) THEN "the logged reward is wrong" ELSE ""
(* ---- tables ---- *)
Table(c, e) ==
  IF e.exc # "" THEN "the value function failed"
  ELSE IF \E s \in 1..Len(c.P) : ~Near(e.V[s], StateValue(c.P, e.V, e.pi, c.g, s), 16) THEN "the values do not satisfy the Bellman equation"
  ELSE IF \E s \in 1..Len(c.P), a \in 1..Len(c.P[1]) : ~Near(e.Q[s][a], ActionValue(c.P, e.V, c.g, s, a), 16) THEN "the action values do not follow from the state values"
  ELSE IF ~Near(e.final, 0, 0) THEN "the end of an episode is worth something" ELSE ""
Improve(c, e) ==
  LET q(s, a) == ActionValue(c.P, e.V, c.g, s, a)  top(s) == SMax({q(s, a) : a \in 1..Len(c.P[s])}) IN
  IF e.exc # "" THEN "the trainer failed"
  ELSE IF \E s \in 1..Len(c.P) : ~Near(e.V[s], top(s), 60) THEN "the values are not those of a best policy"
  ELSE IF \E s \in 1..Len(c.P), a \in 1..Len(c.P[1]) : e.pi[s][a] > 0 /\ q(s, a) < top(s) - 60 THEN "the policy takes an action that is not best"
  ELSE IF \E s \in 1..Len(c.P) : ~Near(SumSeq(e.pi[s]), Unit, 4) THEN "the policy is no distribution" ELSE ""
(* averages of sampled returns; the state has what was tallied so far for every state *)
RECURSIVE TallyAll(_, _, _, _, _, _)
TallyAll(X, n, key(_), k, once, g) == IF n = 0 THEN <<0, 0>> ELSE LET a == TallyAll(X, n - 1, key, k, once, g)  b == Tally(X[n], key, k, once, g) IN <<a[1] + b[1], a[2] + b[2]>>
State(y) == y.s
Pair(y) == <<y.s, y.a>>
Average(c, s, e) ==
  LET old == s.tally[e.s]  X == e.eps  new == TallyAll(X, Len(X), State, e.s, c.once, c.g)  sum == old[1] + new[1]  cnt == old[2] + new[2]
      before == IF Len(X) = 0 THEN 0 ELSE old[2] + TallyAll(X, Len(X) - 1, State, e.s, c.once, c.g)[2] IN
  IF e.exc # "" THEN "the value function failed"
  ELSE IF cnt = 0 THEN (IF e.got = 0 /\ Len(X) = c.most THEN "" ELSE "a state never seen has a value")
  ELSE IF ~Near(e.got, sum \div cnt, 8) THEN "the value is not the average of the returns that followed"
  ELSE IF Len(X) > c.most \/ (cnt < c.times /\ Len(X) # c.most) \/ (Len(X) > 0 /\ before >= c.times) THEN "not as many episodes as asked for" ELSE ""
Averaged(c, s, e) == [s EXCEPT !.tally = [k \in DOMAIN s.tally |-> LET b == TallyAll(e.eps, Len(e.eps), State, k, c.once, c.g) IN <<s.tally[k][1] + b[1], s.tally[k][2] + b[2]>>]]
Plain(c, e) ==
  IF e.exc # "" THEN "the value function failed"
  ELSE IF \E s \in 1..Len(e.V) : LET B == {i \in 1..Len(e.eps) : e.eps[i][1].s = s} IN ~Near(e.V[s], AddUp(B, [i \in 1..Len(e.eps) |-> Return(e.eps[i], c.g)]) \div Cardinality(B), 8) \/ Cardinality(B) # c.times THEN "the value is not the average return" ELSE ""
Learnt(c, e) ==                                  \* preferences are the total return after an action
  LET X == e.eps  pref(s) == [a \in 1..Len(c.P[1]) |-> TallyAll(X, Len(X), Pair, <<s, a>>, c.once, c.g)[1]]
      ok(s) == LET p == pref(s)  far == Len(X) * 20 IN
               LET w == Softmax([a \in 1..Len(p) |-> Clip(p[a] - MaxSeq(p), -(13 * Unit), 0)]) IN \A a \in 1..Len(p) : Near(e.pi[s][a], w[a], 60 + far)
  IN IF e.exc # "" THEN "the trainer failed" ELSE IF \E s \in 1..Len(c.P) : ~ok(s) THEN "the policy does not follow the returns seen" ELSE ""
(* ---- small things ---- *)
RECURSIVE Sum(_)
Sum(X) == IF Len(X) = 0 THEN 0 ELSE Head(X) + Sum(Tail(X))
Running(c, e) ==
  LET k(v) == Abs(v) < 900000000  X == SelectSeq(IF c.init = Undefined THEN e.vals ELSE <<c.init>> \o e.vals, k) IN
  IF e.count # Len(X) THEN "undefined values are counted"
  ELSE IF Len(X) = 0 THEN (IF e.avg = Undefined THEN "" ELSE "the average of nothing is defined")
  ELSE IF ~Near(e.avg, Sum(X) \div Len(X), 3) \/ ~Near(e.total, Sum(X), 3 * Len(X) + 4) THEN "the average is wrong" ELSE ""
Clamp(c, e) == IF c.lo >= c.hi THEN (IF e.exc # "" THEN "" ELSE "an empty range is accepted")
               ELSE IF e.exc # "" THEN "clamping failed"
               ELSE IF \E i \in 1..Len(e.got) : \E j \in 1..Len(e.vals) : e.got[i][j] # Clip(e.vals[j], c.lo, c.hi) THEN "a value is not clamped" ELSE ""
Mixed(base, eps) == [a \in 1..Len(base) |-> Mul(base[a], Unit - eps) + (eps \div Len(base))]
Policy(c, e) ==
  LET want == CASE e.who = "random" -> [a \in 1..c.A |-> Unit \div c.A]
                [] e.who = "table" -> IF e.known THEN Mixed(e.base, c.eps) ELSE [a \in 1..c.A |-> Unit \div c.A]
                [] OTHER -> Mixed(e.base, c.eps) IN
  IF e.exc # "" THEN "the policy failed"
  ELSE IF Len(e.got) # c.A \/ \E a \in 1..c.A : ~Near(e.got[a], want[a], 4) THEN "the policy's distribution is wrong"
  ELSE IF e.space # c.A THEN "the policy has other actions" ELSE ""
(* a map of values: s.vals *)
Known2(k, n) == k \in 1..n
ValuesOp(c, s, e) ==
  LET v == s.vals  n == Len(v)  pos == [i \in 1..n |-> Max2(v[i], 0)]  tot == SumSeq(pos) IN
  IF e.exc # "" THEN "the operation failed"
  ELSE IF e.all # v THEN "values changed under another's feet"
  ELSE CASE e.op = "probability" -> IF tot = 0 \/ Near(e.got[1], Frac(Unit, pos[e.k], tot), 2) THEN "" ELSE "the probability is wrong"
         [] e.op \in {"up", "down", "greedy"} ->
              IF Len(e.keys) # (IF e.op = "greedy" THEN Min2(e.k, n) ELSE n) \/ Cardinality({e.keys[i] : i \in 1..Len(e.keys)}) # Len(e.keys) THEN "not every key is ranked once"
              ELSE IF \E i \in 1..(Len(e.keys) - 1) : (IF e.op = "up" THEN v[e.keys[i]] > v[e.keys[i + 1]] ELSE v[e.keys[i]] < v[e.keys[i + 1]]) THEN "keys are not in order"
              ELSE IF e.op = "greedy" /\ \E i \in 1..n : (\A j \in 1..Len(e.keys) : e.keys[j] # i) /\ v[i] > v[e.keys[Len(e.keys)]] THEN "the best are not chosen"
              ELSE IF e.op # "greedy" /\ \E i \in 1..n : e.got[i] # v[e.keys[i]] THEN "values do not go with their keys" ELSE ""
         [] e.op = "sample" -> IF Len(e.keys) # e.k \/ Cardinality({e.keys[i] : i \in 1..Len(e.keys)}) # e.k THEN "not as many as asked for" ELSE IF \E i \in 1..Len(e.keys) : pos[e.keys[i]] = 0 THEN "a key that has no chance is drawn" ELSE ""
         [] OTHER -> ""
ValuesNext(s, e) == CASE e.op = "set" -> [s EXCEPT !.vals = [@ EXCEPT ![e.k] = e.v]]
                      [] e.op = "replace" -> [s EXCEPT !.vals = e.to]
                      [] OTHER -> s
(* several logs, several estimators, several processes *)
Runs(c, e) ==
  IF e.exc # "" THEN "evaluating failed"
  ELSE IF Len(e.got) # Len(c.ests) THEN "not exactly the estimators asked for are reported"
  ELSE First([k \in 1..Len(c.ests) |->
       LET cc == c.ests[k]  S == SelectSeq(c.logs, LAMBDA X : Defined(X, cc)) IN
       IF Len(e.got[k]) # Len(c.logs) THEN "not every log is evaluated once"
       ELSE IF \E i \in 1..Len(S) : ~\E j \in 1..Len(e.got[k]) : BanditOk(S[i], cc, e.got[k][j]) THEN "the estimate is wrong"
       ELSE IF ~Near(e.mean[k], Sum(e.got[k]) \div Len(c.logs), 4) THEN "the report is not the average" ELSE ""])
Start(c) == CASE c.kind = "mc" -> [tally |-> [s \in 1..Len(c.P) |-> <<0, 0>>]] [] c.kind = "values" -> [vals |-> c.vals] [] OTHER -> 0
Apply(c, s, e) == CASE e.ev = "average" -> Averaged(c, s, e) [] e.ev = "values" -> ValuesNext(s, e) [] OTHER -> s
Verdict(c, s, e) ==
  CASE e.ev = "bandit" -> Bandit(c, e)
    [] e.ev = "seq" -> Sequence(c, e)
    [] e.ev = "table" -> Table(c, e)
    [] e.ev = "improve" -> Improve(c, e)
    [] e.ev = "average" -> Average(c, s, e)
    [] e.ev = "plain" -> Plain(c, e)
    [] e.ev = "learnt" -> Learnt(c, e)
    [] e.ev = "running" -> Running(c, e)
    [] e.ev = "clamp" -> Clamp(c, e)
    [] e.ev = "policy" -> Policy(c, e)
    [] e.ev = "values" -> ValuesOp(c, s, e)
    [] e.ev = "runs" -> Runs(c, e)
    [] e.ev = "step" -> DiceStep(c, e)
    [] e.ev = "dice" -> Dice(c, e)
    [] OTHER -> "unknown event"
INSTANCE TraceBase
====
