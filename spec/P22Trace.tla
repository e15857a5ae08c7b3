---- MODULE P22Trace ----
EXTENDS Estimates, Json, IOUtils
VARIABLES t, l, st, bad
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
Start(c) == 0
Apply(c, s, e) == s
(* what is scored: the reward (m = 0) or a metric in its place *)
View(c, x, m) ==
  IF m = 0 THEN [a |-> x.a, pi |-> x.pi, p |-> x.p, r |-> x.r, mr |-> x.mr, mrl |-> x.mrl, mv |-> x.mv]
  ELSE LET cut(f) == SubSeq(f, (m - 1) * c.A + 1, m * c.A) IN
       [a |-> x.a, pi |-> x.pi, p |-> x.p, r |-> x.met[m], mr |-> cut(x.mm), mrl |-> IF x.a = 0 THEN 0 ELSE cut(x.mm)[x.a], mv |-> cut(x.mmv)]
Views(c, m) == TLCEval([i \in 1..Len(c.E) |-> [j \in 1..Len(c.E[i]) |-> View(c, c.E[i][j], m)]])
Lost == 999999937
(* a spread estimated by resampling: f are the values averaged *)
Spread(f, got) == LET k == Len(f) \div 4 IN k = 0 \/ LET se == Root(Var(f) \div k) IN Near(got, se, (se \div 4) + 60)
(* relative to what the log earned *)
Relative(x, score) ==
  IF score < -64 THEN x.norm = 0 /\ (x.nse = 0 \/ x.rse = Lost)
  ELSE IF score < 400 THEN TRUE                     \* too small to divide by in fixed point
  ELSE /\ Near(Mul(x.norm, score), x.raw, 12 + (4 * Abs(x.norm)) \div Unit)
       /\ x.rse # Lost => Near(Mul(x.nse, score), x.rse, 12 + (4 * Abs(x.nse)) \div Unit)
Col(S, f(_)) == [i \in 1..Len(S) |-> f(S[i])]
R(x) == x.r
One(what, x, f, tol, score) ==
  IF ~Near(x.raw, Mean(f), tol) THEN "the " \o what \o " estimate is wrong"
  ELSE IF ~Spread(f, x.rse) THEN "the " \o what \o " estimate's error is wrong"
  ELSE IF ~Relative(x, score) THEN "an estimate is not relative to the logged policy's score" ELSE ""
Hull(E, g, still) == LET X == {StepReturn(E, j, g, TRUE, still) : j \in 0..Longest(E)} IN <<SMin(X), SMax(X)>>
First(X) == LET B == {i \in 1..Len(X) : X[i] # ""} IN IF B = {} THEN "" ELSE X[SMin(B)]
Tol(E) == 30 + 6 * Len(E) * Longest(E)
Est(c, e) ==
  LET E == Views(c, e.m)  S == TLCEval(Steps(E))  score == Mean(Col(S, R))  earned == Mean([i \in 1..Len(E) |-> Return(E[i], c.g)])
      rec == TLCEval([i \in 1..Len(E) |-> Recur(E[i], 1, c.g)])  tol == Max2(8, SMax({RecurTol(E[i], 1, c.g) : i \in 1..Len(E)}))
      own == e.who = "own"  r == e.res IN
  First(<<One("direct", r.direct_method, Col(S, Direct), 8, score), One("inverse propensity", r.inverse_propensity, Col(S, Inverse), 12, score), One("doubly robust", r.doubly_robust, Col(S, Doubly), 16, score),
          IF own THEN One("sequential doubly robust", r.sequential_doubly_robust, rec, tol, earned) ELSE "",
          IF ~c.neat \/ (~own /\ \E i \in 1..Len(S) : S[i].a = 0) THEN ""
          ELSE LET want == StepReturn(E, Forever, c.g, TRUE, own)  h == Hull(E, c.g, own) IN
               IF ~Near(r.weighted_doubly_robust.raw, want, Tol(E)) \/ (~own /\ ~Near(r.sequential_doubly_robust.raw, want, Tol(E))) THEN "the weighted doubly robust estimate is wrong"
               ELSE IF ~Relative(r.weighted_doubly_robust, earned) \/ ~Relative(r.magic, earned) THEN "an estimate is not relative to the logged policy's score"
               ELSE IF ~Within(r.magic.raw, h[1], h[2], Tol(E)) THEN "the mixed estimate is no mixture of step-wise returns" ELSE "">>)
Mix(c, e) ==
  LET E == Views(c, 0)  g == c.g  full == Shares(E, Forever, g, e.norm, TRUE)  model == Shares(E, 0, g, e.norm, TRUE)  a == SumSeq(full)  b == SumSeq(model) IN
  IF e.k = 1 \/ Len(E) = 1 THEN (IF Near(e.raw, a, Tol(E)) THEN "" ELSE "the weighted doubly robust estimate is wrong")
  ELSE IF ~Within(e.raw, Min2(a, b), Max2(a, b), Tol(E)) THEN "the mixed estimate is no mixture of step-wise returns"
  ELSE IF Abs(a - b) < Unit \div 4 THEN ""
  ELSE LET bd == IF Subsets(Len(E)) = 1 THEN <<-(Unit * 1000), Unit * 1000>> ELSE Bounds(E, g, e.norm, TRUE)
           B == TLCEval(<<Bias(a, bd), Bias(b, bd)>>)  L == TLCEval(<<Cov(full, full), Cov(full, model), Cov(model, model)>>)
           x == Clip(IF a > b THEN Div(e.raw - b, a - b) ELSE Div(b - e.raw, b - a), 0, Unit)
           best == SMin({Loss((k * Unit) \div 16, L, B) : k \in 0..16}) IN
       IF Loss(x, L, B) <= best + 60 + (best \div 8) THEN "" ELSE "the mixed estimate is not the least uncertain"
Details(c, e) ==
  LET S == Steps(c.E)  n == Len(S)  sq == [i \in 1..n |-> Mul(S[i].lv - S[i].mvl, S[i].lv - S[i].mvl)]
      q(a) == [i \in 1..n |-> S[i].oq[a]] IN
  IF ~Near(e.mc, Mean(sq), 4) THEN "the value loss is wrong"
  ELSE IF Len(e.mean) # c.A \/ \E a \in 1..c.A : ~Near(e.mean[a], Mean(q(a)), 3) \/ (n > 1 /\ ~Near(e.std[a], Root(Frac(Var(q(a)), n, n - 1)), 30)) THEN "the spread of values is wrong"
  ELSE IF Len(e.dist) # c.A \/ \E a \in 1..c.A : ~Near(e.dist[a], (Unit * Cardinality({i \in 1..n : S[i].act = a})) \div n, 2) THEN "the chosen actions are miscounted"
  ELSE IF ~e.told THEN "observers were not told" ELSE ""
Verdict(c, s, e) ==
  CASE e.ev = "est" -> IF e.exc # "" THEN (IF e.who = "own" THEN "estimating failed" ELSE "estimating with the library failed") ELSE Est(c, e)
    [] e.ev = "names" -> IF e.got = e.want THEN "" ELSE "not exactly the metrics asked for were scored"
    [] e.ev = "mix" -> IF e.exc # "" THEN "estimating failed" ELSE Mix(c, e)
    [] e.ev = "details" -> Details(c, e)
    [] e.ev = "boot" -> IF e.exc # "" THEN "estimating failed" ELSE IF e.k = 0 THEN "" ELSE LET se == Root(Var(e.data) \div e.k) IN IF Near(e.se, se, (se \div 8) + 20) THEN "" ELSE "the resampled error is wrong"
    [] OTHER -> "unknown event"
INSTANCE TraceBase
====
