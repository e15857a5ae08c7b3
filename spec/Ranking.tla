---- MODULE Ranking ----
(* Rankings drawn item by item: each rank takes an item with its share among those remaining.

   x: scores (fixed point, log domain), positions 1-based, a ranking a = sequence of positions
   (an entry Len(x)+1 is padding).                                                            *)
EXTENDS FixMath, FiniteSets
Range(a) == {a[i] : i \in 1..Len(a)}
Lse(x, R) == LET top == SMax({x[i] : i \in R}) IN top + Ln(SumSeq([i \in 1..Len(x) |-> IF i \in R THEN Exp(x[i] - top) ELSE 0]))
Remaining(x, a, k) == (1..Len(x)) \ {a[i] : i \in 1..(k - 1)}
(* what competes for rank k when the rest of the ranking is listed (padding leaves items out of the contest) *)
Listed(x, a, k) == {a[i] : i \in k..Len(a)} \cap (1..Len(x))
RECURSIVE LogProbIn(_, _, _, _)
LogProbIn(x, a, k, upto) ==
  IF k > upto THEN 0
  ELSE (IF a[k] > Len(x) THEN 0 ELSE x[a[k]] - Lse(x, Listed(x, a, k))) + LogProbIn(x, a, k + 1, upto)
(* full-length ranking, only the first upto ranks matter *)
LogProbFull(x, a, upto) == LogProbIn(x, a, 1, upto)
RECURSIVE LogProbPre(_, _, _)
LogProbPre(x, a, k) == IF k > Len(a) THEN 0 ELSE x[a[k]] - Lse(x, Remaining(x, a, k)) + LogProbPre(x, a, k + 1)
(* partial ranking of the best Len(a) items: everything not yet ranked competes *)
LogProb(x, a) == LogProbPre(x, a, 1)
Scale(x, sh8) == [i \in 1..Len(x) |-> Frac(x[i], sh8, 8)]
Distinct(a) == \A i, j \in 1..Len(a) : i # j => a[i] # a[j]
IsRanking(a, n) == Distinct(a) /\ \A i \in 1..Len(a) : a[i] \in 1..n
Greedy(x, a, tol) == \A k \in 1..Len(a) : \A j \in Remaining(x, a, k) : x[a[k]] >= x[j] - tol
Share(x, a, k) == LET R == Remaining(x, a, k) IN SoftmaxOver(x, R)

(* ---- learning to rank on a table th[s][kind] of scores ----
   row: [s, items: kinds of its candidates, a: ranking shown, r: slate reward, llp: log of the logged
   probability, pr: reward per position]
   c: algo, lr8, blr8, interval, warm, base, clamp ("none", "max", "drop"), cmax, onpol               *)
Scores(th, row) == [i \in 1..Len(row.items) |-> th[row.s][row.items[i]]]
Ratio(c, th, row) == IF c.onpol THEN Unit ELSE LET d == LogProb(Scores(th, row), row.a) - row.llp IN Exp(d)
Weight(c, th, row) == LET w == Ratio(c, th, row) IN
  CASE c.clamp = "max" -> Min2(w, c.cmax) [] c.clamp = "drop" -> (IF w > c.cmax THEN 0 ELSE w) [] OTHER -> w
(* the clamped weight no longer depends on the ranking's probability *)
Live(c, th, row) == c.onpol \/ c.clamp = "none" \/ Ratio(c, th, row) <= c.cmax
Near2(c, th, row) == c.clamp # "none" /\ ~c.onpol /\ Abs(Ratio(c, th, row) - c.cmax) * 256 <= c.cmax
(* derivative of the log-probability of rank k / of the whole ranking, per candidate *)
DRank(x, a, k) == LET p == Share(x, a, k)  R == Remaining(x, a, k) IN
   [i \in 1..Len(x) |-> IF i \notin R THEN 0 ELSE (IF a[k] = i THEN Unit ELSE 0) - p[i]]
DLog(x, a) == LET D == [k \in 1..Len(a) |-> DRank(x, a, k)] IN [i \in 1..Len(x) |-> SumSeq([k \in 1..Len(a) |-> D[k][i]])]
(* position discount 1 / ln(k + 1) *)
Disc(k) == Div(Unit, Ln((k + 1) * Unit))
(* the direction of ascent in the scores of one row's candidates *)
DirRow(c, th, b, row) ==
  LET x == Scores(th, row)  n == Len(x)  T == Len(row.a) IN
  CASE c.algo \in {"rl", "sim"} ->
        LET w == IF Live(c, th, row) THEN Weight(c, th, row) ELSE 0
            adv == row.r - (IF c.base THEN b[row.s] ELSE 0)
            d == DLog(x, row.a)
        IN [i \in 1..n |-> Mul(Mul(d[i], adv), w)]
    [] c.algo = "tf" -> DLog(x, row.a)
    [] c.algo = "attn" ->
        (* the listed items' scores against each other, toward the given position rewards *)
        LET y == [k \in 1..T |-> x[row.a[k]]]  p == Softmax(y)  tot == SumSeq(row.pr)
        IN [i \in 1..n |-> SumSeq([k \in 1..T |-> IF row.a[k] = i THEN row.pr[k] - Mul(p[k], tot) ELSE 0])]
    [] c.algo = "dr" ->
        LET w == Weight(c, th, row)
            live == Live(c, th, row)
            D == [k \in 1..T |-> DRank(x, row.a, k)]
            g == [k \in 1..T |-> Mul(Disc(k), row.pr[k])]
            (* loss of the row: sum over ranks of disc * reward * -log p *)
            L == SumSeq([k \in 1..T |-> Mul(g[k], x[row.a[k]] - Lse(x, Remaining(x, row.a, k)))])
            d == DLog(x, row.a)
        IN [i \in 1..n |-> Mul(SumSeq([k \in 1..T |-> Mul(D[k][i], g[k])]) + (IF live THEN Mul(d[i], L) ELSE 0), w)]
Dir(c, th, b, B) ==
  LET D == [k \in 1..Len(B) |-> DirRow(c, th, b, B[k])] IN
  [s \in 1..Len(th) |-> [v \in 1..Len(th[s]) |->
     SumSeq([k \in 1..Len(B) |-> IF B[k].s # s THEN 0 ELSE SumSeq([i \in 1..Len(B[k].items) |-> IF B[k].items[i] = v THEN D[k][i] ELSE 0])]) \div Len(B)]]
Add(x, y) == [s \in 1..Len(x) |-> [v \in 1..Len(x[s]) |-> x[s][v] + y[s][v]]]
Zero(x) == [s \in 1..Len(x) |-> [v \in 1..Len(x[s]) |-> 0]]
BaseStep(c, b, B) == [s \in 1..Len(b) |-> b[s] + Frac(SumSeq([k \in 1..Len(B) |-> IF B[k].s = s THEN B[k].r - b[s] ELSE 0]), 2 * c.blr8, 8 * Len(B))]
(* state of a run: th, b, acc (gathered directions), k (batches seen) *)
Accumulates(c) == c.algo \in {"rl", "sim", "tf"}
Trains(c, k) == ~c.base \/ c.algo \notin {"rl", "sim"} \/ k >= c.warm
Fires(c, k) == Trains(c, k) /\ (~Accumulates(c) \/ k % c.interval = 0)
Batch(c, st, B) ==
  LET k == st.k + 1
      acc == IF Trains(c, k) THEN Add(st.acc, Dir(c, st.th, st.b, B)) ELSE st.acc
      fire == Fires(c, k)
      b == IF c.base /\ c.algo \in {"rl", "sim"} THEN BaseStep(c, st.b, B) ELSE st.b
  IN [k |-> k, b |-> b, acc |-> IF fire THEN Zero(acc) ELSE acc,
      th |-> IF fire THEN Add(st.th, [s \in 1..Len(acc) |-> [v \in 1..Len(acc[s]) |-> Frac(acc[s][v], c.lr8, 8)]]) ELSE st.th]

(* ---- simulated rewards ---- *)
RECURSIVE Power(_, _)
Power(v, n) == IF n = 0 THEN Unit ELSE Mul(Power(v, n - 1), v)
Swaps(a) == Cardinality({p \in (1..Len(a)) \X (1..Len(a)) : p[1] < p[2] /\ a[p[1]] > a[p[2]]}) + SumSeq([i \in 1..Len(a) |-> a[i] - i])
SimReward(c, raw, a) ==
  LET s == SumSeq([j \in 1..Len(raw) |-> Frac(Power(raw[j], c.pow[j]), c.w4[j], 4)])
      g == IF c.rclamp THEN Clip(s, c.rmin, c.rmax) ELSE s
  IN g + Frac((((c.n * (c.n - 1)) \div 2) - Swaps(a)) * Unit, c.pen8, 8)
====
