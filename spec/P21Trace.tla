---- MODULE P21Trace ----
EXTENDS EvalData, Json, IOUtils
VARIABLES t, l, st, bad
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
(* the page held so far *)
Start(c) == [P |-> <<>>]
In(e) == TLCEval([i \in 1..Len(e.rows) |-> Row(e.c, e.rows[i])])
Apply(c, s, e) ==
  CASE e.ev = "page" -> [s EXCEPT !.P = s.P \o In([rows |-> e.rows, c |-> c])]
    [] e.ev = "sort" -> [s EXCEPT !.P = Sorted(s.P)]
    [] OTHER -> s
NearSeq(x, y, tol) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : Near(x[i], y[i], tol)
RowDiff(c, w, x) ==
  IF x.mdp # w.mdp \/ x.seq # w.seq THEN "rows are out of place"
  ELSE IF ~Near(x.p, w.p, 1) \/ ~Near(x.r, w.r, 1) \/ ~NearSeq(x.met, w.met, 1) THEN "a row holds another step's log"
  ELSE IF ~NearSeq(x.am, w.am, 0) \/ ~NearSeq(x.pam, w.pam, 0) THEN "a row's actions are wrong"
  ELSE IF ~NearSeq(x.mr, w.mr, 2) \/ ~Near(x.mrl, w.mrl, 2) THEN "a row's predicted rewards are wrong"
  ELSE IF ~NearSeq(x.mv, w.mv, 2) \/ ~Near(x.mvl, w.mvl, 2) \/ ~NearSeq(x.oq, w.oq, 2) THEN "a row's predicted values are wrong"
  ELSE IF ~NearSeq(x.mp, w.mp, 6) THEN "a row's target policy is wrong"
  ELSE IF ~NearSeq(x.mm, w.mm, 2) \/ (c.algo = "dqn" /\ (~NearSeq(x.mmv, w.mmv, 2) \/ ~NearSeq(x.mml, w.mml, 2) \/ ~NearSeq(x.mmvl, w.mmvl, 2))) THEN "a row's predictions of metrics are wrong"
  ELSE ""
PageDiff(c, W, X) == IF Len(X) # Len(W) THEN "rows were lost or invented"
                     ELSE LET D == {RowDiff(c, W[i], X[i]) : i \in 1..Len(W)} IN IF D = {""} \/ D = {} THEN "" ELSE CHOOSE d \in D \ {""} : TRUE
Col(P, f(_)) == [i \in 1..Len(P) |-> f(P[i])]
ValuesDiff(c, P, e) ==
  IF Len(e.lv) # Len(P) THEN "rows were lost or invented"
  ELSE IF ~Valid(P) THEN ""
  ELSE IF \E i \in 1..Len(P) : ~Near(e.lv[i], Value(P, i, [j \in 1..Len(P) |-> P[j].r], c.gamma), 3 * Len(P) + 2) THEN "the value of a step is not its discounted later rewards"
  ELSE IF \E m \in 1..c.M : \E i \in 1..Len(P) : ~Near(e.lmv[i][m], Value(P, i, [j \in 1..Len(P) |-> P[j].met[m]], c.gamma), 3 * Len(P) + 2) THEN "the value of a metric is not its discounted later values"
  ELSE ""
(* a metric taking the reward's place brings its log, its values, and what the models predict for it *)
Slice(x, m, n) == SubSeq(x, (m - 1) * n + 1, m * n)
Dot(x, y) == SumSeq([k \in 1..Len(x) |-> Mul(x[k], y[k])])
MetricDiff(c, P, e) ==
  IF Len(e.rows) # Len(P) THEN "rows were lost or invented"
  ELSE IF \E i \in 1..Len(P) : LET x == e.rows[i]  w == P[i]  m == e.m  n == Len(w.am) IN
      ~Near(x.r, w.met[m], 1) \/ (Valid(P) /\ ~Near(x.lv, Value(P, i, [j \in 1..Len(P) |-> P[j].met[m]], c.gamma), 3 * Len(P) + 2))
      THEN "a metric is judged by another's log"
  ELSE IF \E i \in 1..Len(P) : LET x == e.rows[i]  w == P[i]  m == e.m  n == Len(w.am) IN
      ~NearSeq(x.mr, Slice(w.mm, m, n), 2) \/ ~Near(x.mrl, Dot(Slice(w.mm, m, n), w.am), 2)
      \/ (c.algo = "dqn" /\ (~NearSeq(x.mv, Slice(w.mmv, m, n), 2) \/ ~Near(x.mvl, Dot(Slice(w.mmv, m, n), w.am), 2)))
      THEN "a metric is judged by another's predictions"
  ELSE ""
(* rankings: w[k] the worth of rank k; value of a slate *)
Worth(w, x, a) == SumSeq([k \in 1..Len(a) |-> Mul(w[k], x[a[k]])])
SlateDiff(e) ==
  IF Len(e.rows) # e.batch THEN "rows were lost or invented"
  ELSE IF \E i \in 1..Len(e.rows) : LET r == e.rows[i] IN
      ~Near(r.mr, Worth(e.w, r.x, r.best), 4) \/ ~Near(r.mrl, Worth(e.w, r.x, r.a), 4) \/ ~Near(r.r, r.lr, 1) \/ ~Near(r.p, r.lp, 1)
      \/ r.am # (IF e.greedy /\ r.best # r.a THEN 0 ELSE Unit) \/ ~Near(r.mp, IF e.greedy THEN Unit ELSE r.prob, 2)
      THEN "a ranking's evaluation row is wrong" ELSE ""
Verdict(c, s, e) ==
  CASE e.ev = "page" -> IF e.exc # "" THEN "evaluating a batch failed" ELSE PageDiff(c, s.P \o In([rows |-> e.rows, c |-> c]), e.page)
    [] e.ev = "sort" -> PageDiff(c, Sorted(s.P), e.page)
    [] e.ev = "values" -> ValuesDiff(c, s.P, e)
    [] e.ev = "valid" -> IF (e.exc = "") # (Valid(s.P) /\ e.cut = "") THEN (IF e.exc = "" THEN "invalid evaluation data was accepted" ELSE "valid evaluation data was refused") ELSE ""
    [] e.ev = "mixed" -> IF e.exc # "" THEN "" ELSE "pages with different fields were joined"
    [] e.ev = "nets" -> IF e.same THEN (IF e.modes THEN "" ELSE "evaluating changed a training mode") ELSE "evaluating changed a network"
    [] e.ev = "metric" -> IF e.exc # "" THEN "evaluating a metric failed" ELSE MetricDiff(c, s.P, e)
    [] e.ev = "slate" -> IF e.exc # "" THEN "evaluating a batch failed" ELSE SlateDiff(e)
    [] OTHER -> "unknown event"
INSTANCE TraceBase
====
