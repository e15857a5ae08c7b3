---- MODULE P26Trace ----
EXTENDS Serving, TLC, Json, IOUtils
VARIABLES t, l, st, bad
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
Lay(fs) == TLCEval(Layout(fs))
Start(c) == IF c.kind # "serve" THEN [ly |-> <<>>]
            ELSE [ly |-> Lay(c.fs), la |-> Lay(c.afs)]
Apply(c, s, e) == s
Clauses(X) == IF X \ {""} = {} THEN "" ELSE CHOOSE z \in X \ {""} : TRUE
(* the input of the network for one row, and how precisely it is known *)
State(c, s, r) == Normal(s.ly, r.x, r.p)
StateD(c, s, r) == Doubt(s.ly, r.x, r.p)
Items(s, r) == Concat([i \in 1..Len(r.items) |-> Normal(s.la, r.items[i].x, r.items[i].p)])
ItemsD(s, r) == Concat([i \in 1..Len(r.items) |-> Doubt(s.la, r.items[i].x, r.items[i].p)])
Lists(c, r) == Concat([i \in 1..Len(c.lists) |-> LET tb == c.tables[c.lists[i].table] IN Pool(tb.rows, tb.ids, r.lists[i], c.dim)])
ListsD(c) == [k \in 1..(Len(c.lists) * c.dim) |-> 8]
Inputs(c, s, r) == IF c.fam \in {"pdqn", "rank"} THEN State(c, s, r) \o Items(s, r)
                   ELSE IF c.fam = "sparse" THEN Lists(c, r) \o State(c, s, r) ELSE State(c, s, r)
InputsD(c, s, r) == IF c.fam \in {"pdqn", "rank"} THEN StateD(c, s, r) \o ItemsD(s, r)
                    ELSE IF c.fam = "sparse" THEN ListsD(c) \o StateD(c, s, r) ELSE StateD(c, s, r)
Raw(c, s, r) == Linear(c.W, c.b, TLCEval(Inputs(c, s, r)))
RawD(c, s, r) == Spill(c.W, c.b, TLCEval(InputsD(c, s, r)))
WorstOf(d) == SMax({d[i] : i \in 1..Len(d)})
Outs(c) == IF c.fam = "dist" \/ c.fam = "cat" THEN Len(c.b) \div c.atoms ELSE Len(c.b)
(* what is served for one row, and how precisely that is known *)
Cat(c, v) == LET p == TLCEval(Softmax(v)) IN SumSeq([k \in 1..Len(v) |-> Mul(p[k], c.support[k])])
Want(c, s, r) ==
  LET u == TLCEval(Raw(c, s, r)) IN
  CASE c.fam = "dist" -> [a \in 1..Outs(c) |-> MeanOf(Chunk(u, c.atoms, a))]
    [] c.fam = "cat" -> [a \in 1..Outs(c) |-> Cat(c, Chunk(u, c.atoms, a))]
    [] c.fam \in {"actor", "rank"} -> [a \in 1..Len(u) |-> Post(c.act[a], Tanh(u[a]))]
    [] c.fam = "squash" -> [a \in 1..Len(u) |-> Tanh(u[a])]
    [] c.fam = "mean" -> [a \in 1..(Len(u) \div 2) |-> Post(c.act[a], Tanh(u[a]))]
    [] OTHER -> u
WantD(c, s, r) ==
  LET d == WorstOf(RawD(c, s, r)) IN
  CASE c.fam \in {"actor", "rank", "mean"} -> WorstOf([a \in 1..Len(c.act) |-> PostSlack(c.act[a], d + 16)])
    [] c.fam = "cat" -> 40 + 4 * d
    [] c.fam = "squash" -> d + 16
    [] OTHER -> d + 2
Row(c, s, r, y) == LET w == TLCEval(Want(c, s, r))  d == WantD(c, s, r) IN
  IF Len(y) # Len(w) THEN "the number of served values is wrong"
  ELSE IF \E a \in 1..Len(w) : ~Near(y[a], w[a], d) THEN "the served value is not that of the trained model on normalised inputs" ELSE ""
Serve(c, s, e) ==
  IF e.exc # "" THEN "a request was refused"
  ELSE IF e.names # e.wants THEN "served names are not the action names"
  ELSE IF Len(e.y) # Len(e.rows) THEN "rows were lost"
  ELSE Clauses({Row(c, s, e.rows[i], e.y[i]) : i \in 1..Len(e.rows)})
Equal(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], tol)
Apart(e) == \E i \in 1..Len(e.y) : e.y[i] # e.y[1]
Weights(e) == IF Len(e.steps) = 0 THEN <<Unit>> ELSE Softmax(e.steps)
(* plans: one set of sequences per length *)
Plan(e) == [a \in 1..Len(e.y) |-> SumSeq([k \in 1..Len(e.plans) |-> Mul(BestFirst(e.plans[k], Len(e.y))[a], Weights(e)[k])])]
Perm(ch, n) == Len(ch) = n /\ {ch[i] : i \in 1..Len(ch)} = 1..n
Dpp(e) ==
  LET n == Len(e.q)  K == TLCEval(Kernel(e.q, e.fv, e.alpha))
      d(i, j) == TLCEval(Det(Sub(K, SubSeq(e.chosen, 1, i - 1) \o <<j>>)))
      left(i) == {j \in 1..n : \A k \in 1..(i - 1) : e.chosen[k] # j}
  IN IF e.exc # "" THEN "a set of items was refused"
     ELSE IF ~Perm(e.chosen, n) THEN "items are repeated or lost"
     ELSE IF \E i \in 1..n : \E j \in 1..n : ~Near(e.L[i][j], K[i][j], 24) THEN "the kernel of the items is wrong"
     ELSE IF \E i \in 1..n : \E j \in left(i) : ~Near(e.dets[i][j], d(i, j), 96) THEN "a determinant is wrong"
     ELSE IF \E i \in 1..n : \E j \in left(i) : d(i, j) > d(i, e.chosen[i]) + 192 THEN "an item was chosen though a more valuable one was left" ELSE ""
Choose(c, s, e) == LET w == TLCEval(Want(c, s, e.row))  d == WantD(c, s, e.row) IN
  IF e.exc # "" THEN "the served policy failed"
  ELSE IF e.a \notin 1..Len(w) THEN "the served policy chose nothing"
  ELSE IF e.ok[e.a] = 0 THEN "the served policy chose an impossible action"
  ELSE IF e.a \notin Greedy(w, e.ok, 2 * d) THEN "the served policy did not choose the best action" ELSE ""
(* one network output for each tiled one-hot action or candidate *)
Each(c, s, e) == [i \in 1..Len(e.rows) |-> Want(c, s, e.rows[i])[1]]
EachD(c, s, e) == WorstOf([i \in 1..Len(e.rows) |-> WantD(c, s, e.rows[i])])
Pick(c, s, e) ==
  LET w == TLCEval(Each(c, s, e))  d == EachD(c, s, e)
      sm == IF Len(e.value) = 0 THEN <<>> ELSE TLCEval(Softmax(e.value))
      v == IF Len(e.value) = 0 THEN w ELSE [i \in 1..Len(w) |-> Mul(w[i], sm[i])]
      n == Len(e.a)
  IN IF e.exc # "" THEN "the served policy failed"
     ELSE IF \E i \in 1..n : e.a[i] \notin 1..Len(w) THEN "the served policy chose nothing"
     ELSE IF Cardinality({e.a[i] : i \in 1..n}) # n THEN "a candidate was chosen twice"
     ELSE IF \E i \in 1..n : \E j \in 1..Len(w) : (\A k \in 1..i : e.a[k] # j) /\ v[j] > v[e.a[i]] + (2 * d) + 32 THEN "the served policy did not choose the best candidates" ELSE ""
Verdict(c, s, e) ==
  CASE e.ev = "serve" -> Serve(c, s, e)
    [] e.ev = "choose" -> Choose(c, s, e)
    [] e.ev = "pick" -> Pick(c, s, e)
    [] e.ev = "back" -> IF e.exc # "" THEN "a served action could not be normalised"
         ELSE IF \E i \in 1..Len(e.rows) : LET u == Raw(c, s, e.rows[i])  d == WorstOf(RawD(c, s, e.rows[i])) IN \E a \in 1..Len(c.act) : ~Near(e.y[i][a], Tanh(u[a]), d + 24 + (64 * Unit) \div (c.act[a].max - c.act[a].min)) THEN "a served action is not on the scale training sees" ELSE ""
    [] e.ev = "same" -> IF e.exc # "" THEN "a request was refused"
         ELSE IF Len(e.a) # Len(e.b) \/ \E i \in 1..Len(e.a) : ~Equal(e.a[i], e.b[i], e.tol) THEN e.why ELSE ""
    [] e.ev = "apart" -> IF e.exc # "" THEN "a request was refused" ELSE IF ~Apart(e) THEN "rows served together share one random draw" ELSE ""
    [] e.ev = "sum" -> IF e.exc # "" THEN "a request was refused" ELSE IF \E i \in 1..Len(e.y) : Abs(SumSeq(e.y[i]) - Unit) > 16 \/ \E a \in 1..Len(e.y[i]) : e.y[i][a] < 0 THEN "a share of a whole does not add up" ELSE ""
    [] e.ev = "slate" -> IF e.exc # "" THEN "a request was refused" ELSE IF \E i \in 1..Len(e.y) : ~Perm(e.y[i], e.n) THEN "a served ranking repeats or loses a candidate" ELSE ""
    [] e.ev = "plan" -> IF e.exc # "" THEN "a request was refused" ELSE IF ~Equal(e.y, Plan(e), 24) THEN "the value of a first action is not that of its best continuation" ELSE ""
    [] e.ev = "dpp" -> Dpp(e)
    [] e.ev = "refuse" -> IF e.exc = "" THEN "a request of the wrong shape was accepted" ELSE ""
    [] OTHER -> "unknown event"
INSTANCE TraceBase
====
