---- MODULE SlateQ ----
(* Learning the value of items shown in slates, on a table q[state][kind of item].

   A row of a batch: [s, docs: kinds of the candidates, vals: their choice scores (Unit), a: positions (0-based) of the shown
   items, r: reward per shown item, m: whether that reward was observed, s2, docs2, vals2, a2, nt].
   c: single (the user picks one item), gamma, lr, tau (sixteenths)                               *)
EXTENDS FixMath, FiniteSets
At(x, i) == x[i + 1]
Shown(docs, a) == [i \in 1..Len(a) |-> At(docs, a[i])]
Weights(c, r) == LET v == Shown(r.vals2, r.a2) IN IF c.single THEN Softmax(v) ELSE [i \in 1..Len(v) |-> v[i] \div Len(v)]
(* value of the next slate *)
NextValue(c, tq, r) ==
  IF r.nt = 0 THEN 0
  ELSE LET d == Shown(r.docs2, r.a2)  w == Weights(c, r) IN SumSeq([i \in 1..Len(d) |-> Mul(tq[r.s2 + 1][d[i] + 1], w[i])])
Target(c, tq, r, i) == r.r[i] + Frac(NextValue(c, tq, r), c.gamma, 16)
Learnt(c, r, i) == ~c.single \/ r.m[i] = 1
Positions(c, B) == {<<k, i>> \in (1..Len(B)) \X (1..10) : i <= Len(B[k].a) /\ Learnt(c, B[k], i)}
RECURSIVE SumSet(_, _)
SumSet(f, X) == IF X = {} THEN 0 ELSE LET x == CHOOSE y \in X : TRUE IN f[x] + SumSet(f, X \ {x})
CellOf(B, p) == <<B[p[1]].s, At(B[p[1]].docs, B[p[1]].a[p[2]])>>
(* one gradient step on the mean squared error over the learnt positions *)
Step(c, q, tq, B) ==
  LET P == Positions(c, B)  n == Cardinality(P)
      err == [p \in P |-> LET x == CellOf(B, p) IN Target(c, tq, B[p[1]], p[2]) - q[x[1] + 1][x[2] + 1]]
      own(s, d) == {p \in P : CellOf(B, p) = <<s - 1, d - 1>>}
  IN [s \in 1..Len(q) |-> [d \in 1..Len(q[s]) |-> IF own(s, d) = {} THEN q[s][d] ELSE q[s][d] + Frac(SumSet(err, own(s, d)), 2 * c.lr, 16 * n)]]
Soft(c, new, old) == Frac(new, c.tau, 16) + Frac(old, 16 - c.tau, 16)
SoftTable(c, q, tq) == [s \in 1..Len(q) |-> [d \in 1..Len(q[s]) |-> Soft(c, q[s][d], tq[s][d])]]
(* acting: candidates are ranked by their chance to be picked times their value *)
Scores(q, s, docs, vals) == LET w == Softmax(vals) IN [i \in 1..Len(docs) |-> Mul(q[s + 1][docs[i] + 1], w[i])]
TopK(x, a, tol) == /\ \A i, j \in 1..Len(a) : i # j => a[i] # a[j]
                   /\ \A i \in 1..Len(a) : a[i] \in 0..(Len(x) - 1)
                   /\ \A i \in 1..(Len(a) - 1) : At(x, a[i]) >= At(x, a[i + 1]) - tol
                   /\ \A j \in 0..(Len(x) - 1) : (\A i \in 1..Len(a) : a[i] # j) => \A i \in 1..Len(a) : At(x, a[i]) >= At(x, j) - tol
====
