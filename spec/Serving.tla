---- MODULE Serving ----
(* A served model: raw values and presence flags in, the trained network on normalised values, actions put back on their own scale. *)
EXTENDS Preprocess
RECURSIVE Flat(_, _)
Flat(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o Flat(ss, i + 1)
Concat(ss) == Flat(ss, 1)
(* ly is a laid-out list of features, x and p a raw row with its presence flags *)
Normal(ly, x, p) == Concat([q \in 1..Len(ly) |-> Entry(ly[q], x[q], p[q])])
Doubt(ly, x, p) == Concat([q \in 1..Len(ly) |-> [k \in 1..Width(ly[q]) |-> IF p[q] = 0 THEN 0 ELSE Slack(ly[q], x[q])]])
(* one linear layer *)
Linear(W, b, v) == [o \in 1..Len(b) |-> b[o] + SumSeq([k \in 1..Len(v) |-> Mul(v[k], W[o][k])])]
Spill(W, b, d) == [o \in 1..Len(b) |-> 8 + SumSeq([k \in 1..Len(d) |-> 1 + Mul(d[k], Abs(W[o][k]))])]
Tanh(u) == LET a == Clip(Abs(u), 0, 6 * Unit)  e == Exp(0 - (2 * a))  r == Div(Unit - e, Unit + e) IN IF u < 0 THEN 0 - r ELSE r
(* an action of the network put on its own scale, and back *)
Post(f, u) == IF f.ty = "CONTINUOUS_ACTION" THEN f.min + (Mul(Clip(u, 0 - Unit, Unit) + Unit, f.max - f.min) \div 2) ELSE u
PostSlack(f, d) == IF f.ty = "CONTINUOUS_ACTION" THEN 8 + (Mul(d, f.max - f.min) \div 2) ELSE d
(* pooled lists of identifiers: a table holds one row per known identifier *)
IndexOf(ids, x) == CHOOSE i \in 1..Len(ids) : ids[i] = x
Pool(table, ids, list, dim) == [k \in 1..dim |-> SumSeq([j \in 1..Len(list) |-> Mul(list[j].w, table[IndexOf(ids, list[j].id)][k])])]
(* the groups of consecutive outputs *)
Chunk(v, n, a) == SubSeq(v, ((a - 1) * n) + 1, a * n)
MeanOf(v) == SumSeq(v) \div Len(v)
(* the best of the outputs that are allowed *)
Best(v, ok) == SMax({v[a] : a \in {b \in 1..Len(v) : ok[b] # 0}})
Greedy(v, ok, slack) == {a \in 1..Len(v) : ok[a] # 0 /\ v[a] >= Best(v, ok) - slack}
(* determinants *)
Minor(M, c) == [i \in 1..(Len(M) - 1) |-> [j \in 1..(Len(M) - 1) |-> M[i + 1][IF j < c THEN j ELSE j + 1]]]
RECURSIVE Det(_)
Det(M) == IF Len(M) = 0 THEN Unit ELSE IF Len(M) = 1 THEN M[1][1]
          ELSE SumSeq([c \in 1..Len(M) |-> LET d == Mul(M[1][c], Det(Minor(M, c))) IN IF c % 2 = 1 THEN d ELSE 0 - d])
Sub(M, is) == [i \in 1..Len(is) |-> [j \in 1..Len(is) |-> M[is[i]][is[j]]]]
(* the kernel of a set of items: how good each is, and how alike two are *)
Norm2(v) == Sqrt(SumSeq([k \in 1..Len(v) |-> Mul(v[k], v[k])]))
UnitVec(v) == LET n == Norm2(v) IN [k \in 1..Len(v) |-> IF n = 0 THEN 0 ELSE Div(v[k], n)]
Dot(u, v) == SumSeq([k \in 1..Len(u) |-> Mul(u[k], v[k])])
Kernel(q, fv, alpha) == LET uv == [i \in 1..Len(q) |-> UnitVec(fv[i])] IN
  [i \in 1..Len(q) |-> [j \in 1..Len(q) |-> IF i = j THEN Mul(q[i], q[i]) ELSE Mul(alpha, Mul(Mul(q[i], q[j]), Dot(uv[i], uv[j])))]]
(* the value of each first action: the best of the sequences that begin with it *)
Firsts(seqs, a) == {seqs[i].v : i \in {j \in 1..Len(seqs) : seqs[j].first = a}}
BestFirst(seqs, n) == [a \in 1..n |-> SMax(Firsts(seqs, a))]
====
