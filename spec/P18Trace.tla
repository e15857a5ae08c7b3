---- MODULE P18Trace ----
EXTENDS Ranking, TLC, Json, IOUtils
VARIABLES t, l, st, bad
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
Start(c) == [k |-> 0, b |-> c.b, th |-> c.th, acc |-> Zero(c.th), blur |-> FALSE]
Tol == 40
Same(x, y, d) == \A i \in 1..Len(x) : \A a \in 1..Len(x[i]) : Near(y[i][a], x[i][a], d)
SameV(x, y, d) == \A i \in 1..Len(x) : Near(y[i], x[i], d)
Row(c, r) == IF c.algo = "sim" THEN [r EXCEPT !.r = SimReward(c, r.raw, r.a)] ELSE r
Rows(c, e) == [i \in 1..Len(e.rows) |-> Row(c, e.rows[i])]
Blur(c, s, e) == s.blur \/ \E i \in 1..Len(e.rows) : Near2(c, s.th, e.rows[i])
Apply(c, s, e) ==
  IF e.ev # "batch" THEN s
  ELSE LET n == Batch(c, [k |-> s.k, b |-> s.b, th |-> s.th, acc |-> s.acc], Rows(c, e)) IN
       [k |-> n.k, b |-> e.b, th |-> e.th, acc |-> n.acc, blur |-> Blur(c, s, e) /\ n.acc # Zero(n.acc)]
(* ---- the ranking network ---- *)
RowSum(p) == SumSeq(p)
Probs(r, k) == [i \in 1..(Len(r.pp[k]) - 2) |-> r.pp[k][i + 2]]
NetRow(e, r) ==
  LET n == e.n  T == Len(r.a) IN
  IF T # Min2(e.t, n) \/ ~IsRanking(r.a, n) THEN "a ranking repeats or invents candidates, or has the wrong length"
  ELSE IF \E k \in 1..T : Abs(RowSum(r.pp[k]) - Unit) > 8 + n THEN "the chances at a rank do not add up to one"
  ELSE IF \E k \in 1..T : r.pp[k][1] > 1 \/ r.pp[k][2] > 1 \/ \E j \in 1..(k - 1) : Probs(r, k)[r.a[j]] > 1 THEN "an item already ranked, or none, had a chance"
  ELSE IF e.greedy /\ \E k \in 1..T : \E j \in 1..n : Probs(r, k)[j] > Probs(r, k)[r.a[k]] + 2 THEN "a greedy ranking did not take the most likely item"
  ELSE IF e.arch = "encoder_score" THEN
       (IF \E k \in 1..T : \E j \in Remaining(r.x, r.a, k) : r.x[j] > r.x[r.a[k]] + 2 THEN "the ranking is not by score" ELSE "")
  ELSE LET P == [k \in 1..T |-> Probs(r, k)[r.a[k]]]
           prod == Exp(SumSeq([k \in 1..T |-> IF P[k] < 2 THEN 0 - 20 * Unit ELSE Ln(P[k])])) IN
       IF Abs(prod - r.ps) > 12 THEN "the probability of a ranking is not the product over its ranks"
       ELSE IF Abs(Exp(r.lp) - r.ps) > 12 THEN "the log-probability computed for a ranking differs from its probability when it was drawn"
       ELSE IF \E k \in 1..T : \E i \in 1..(n + 2) : Abs(r.sym[k][i] - r.pp[k][i]) > 4 THEN "per-rank chances differ between drawing and scoring"
       ELSE IF e.arch = "frechet_sort" /\ \E k \in 1..T : \E i \in Remaining(r.x, r.a, k) :
              LET z == SumSeq([j \in 1..n |-> IF j \in Remaining(r.x, r.a, k) THEN Probs(r, 1)[j] ELSE 0]) IN
              z > 1000 /\ Abs((Probs(r, 1)[i] * 512) \div z - (Probs(r, k)[i] \div 16)) > 2
            THEN "the chance of an item is not its share among the remaining items"
       ELSE ""
Clauses(X) == IF X \ {""} = {} THEN "" ELSE CHOOSE z \in X \ {""} : TRUE
(* counts of each ranking in N draws, six standard deviations *)
FreqOk(e) == \A i \in 1..Len(e.counts) :
   LET p == Exp(LogProb(Scale(e.x, e.sh8), e.counts[i].a))
       mean == (p * e.n) \div Unit
       dev == Isqrt(mean + 1) * 6 + 6
   IN Abs(e.counts[i].k - mean) <= dev
(* rounding of one direction, and of the weights *)
(* what is told of a step: scores, importance ratios, advantages *)
ToldOk(c, s, e) ==
  LET B == Rows(c, e)  n == Len(B)
      r == [i \in 1..n |-> Ratio(c, s.th, B[i])]
      w == [i \in 1..n |-> Weight(c, s.th, B[i])]
      adv == [i \in 1..n |-> B[i].r - (IF c.base THEN s.b[B[i].s] ELSE 0)]
      lax == 24 + SMax({Abs(B[i].r) \div 256 : i \in 1..n}) + SMax({r[i] \div 256 : i \in 1..n})
      score(x) == -(SumSeq([i \in 1..n |-> Mul(x[i], B[i].r)]) \div n)
      close(x, y, tol) == Len(x) = 1 /\ Len(x[1]) = Len(y) /\ \A i \in 1..Len(y) : Near(x[1][i], y[i], tol)
  IN /\ close(e.told[1], <<score(r)>>, lax * 2) /\ close(e.told[3], r, lax)
     /\ (\E i \in 1..n : Near2(c, s.th, B[i])) \/ (close(e.told[2], <<score(w)>>, lax * 2) /\ close(e.told[4], w, lax))
     /\ close(e.told[5], adv, lax)
Verdict(c, s, e) ==
  CASE e.ev = "logp" -> IF Near(LogProbFull(Scale(e.x, e.sh8), e.a, e.upto), e.lp, 12) THEN "" ELSE "the log-probability of a ranking is not the sum of its log shares"
    [] e.ev = "sample" ->
         Clauses({IF ~IsRanking(r.a, Len(r.x)) \/ Len(r.a) # Min2(e.topk, Len(r.x)) THEN "a sampled ranking repeats or invents candidates, or has the wrong length"
                  ELSE IF ~Near(LogProb(Scale(r.x, e.sh8), SubSeq(r.a, 1, e.upto)), r.lp, 12) THEN "the reported log-probability is not that of the sampled ranking" ELSE "" : r \in {e.rows[i] : i \in 1..Len(e.rows)}}
                 \cup {IF Len(e.rows) # e.batch THEN "rows lost" ELSE ""})
    [] e.ev = "freq" -> IF FreqOk(e) THEN "" ELSE "rankings are not drawn with their probabilities"
    [] e.ev = "refused" -> IF e.exc = e.want THEN "" ELSE "an impossible request was not refused"
    [] e.ev = "failed" -> "ranking failed"
    [] e.ev = "rank" -> Clauses({NetRow(e, e.rows[i]) : i \in 1..Len(e.rows)} \cup {IF Len(e.rows) # e.batch THEN "rows lost" ELSE ""})
    [] e.ev = "total" -> IF \A i \in 1..Len(e.sums) : Abs(e.sums[i] - Unit) <= 16 THEN "" ELSE "the probabilities of all rankings do not add up to one"
    [] e.ev = "batch" ->
         IF e.exc # "" THEN "a training step failed"
         ELSE LET n == Batch(c, [k |-> s.k, b |-> s.b, th |-> s.th, acc |-> s.acc], Rows(c, e)) IN
           IF ~SameV(n.b, e.b, Tol) THEN "the baseline did not move toward the rewards"
           ELSE IF ~Fires(c, s.k + 1) /\ e.th # s.th THEN "the ranking scores moved when they were not to be trained"
           ELSE IF ~Blur(c, s, e) /\ ~Same(n.th, e.th, c.tol) THEN "the ranking scores did not move as configured"
           ELSE IF Len(e.told) > 0 /\ ~ToldOk(c, s, e) THEN "what is told of a step is not what happened" ELSE ""
    [] OTHER -> "unknown event"
INSTANCE TraceBase
====
