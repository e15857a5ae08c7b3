---- MODULE Features ----
(* Sparse feature maps to dense columns, identifier lists to table indices, and the pipeline of
   batch transforms.  A batch is a function from key names to tagged values:
     v  a vector                         m  a matrix
     p  a matrix with its presence       c  a stack of matrices
     s  sequences by sequence id, each with offsets and a p
     l  a list of (value, presence) pairs of vectors
     i  identifier features by feature id: offsets, identifiers and (scored) weights
     j  identifier features by name: offsets, table indices and weights
     n  nothing *)
EXTENDS Integers, Sequences, FiniteSets
Cols(m) == IF Len(m) = 0 THEN 0 ELSE Len(m[1])
Has(f, k) == k \in DOMAIN f
(* one sparse row: a sequence of [f, v]; given values only *)
Given(row, f) == {k \in 1..Len(row) : row[k].f = f}
ValueOf(row, f) == row[CHOOSE k \in Given(row, f) : TRUE].v
Dense(c, row) == [j \in 1..Len(c.order) |-> IF Given(row, c.order[j]) = {} THEN c.fill ELSE ValueOf(row, c.order[j])]
Presence(c, row) == [j \in 1..Len(c.order) |-> IF c.zero THEN 1 ELSE IF Given(row, c.order[j]) = {} \/ ValueOf(row, c.order[j]) = c.missing THEN 0 ELSE 1]
(* identifiers: a table is a sequence of the identifiers it knows, in index order from zero *)
Known(table, x) == \E i \in 1..Len(table) : table[i] = x
IndexOf(table, x) == (CHOOSE i \in 1..Len(table) : table[i] = x) - 1
(* a configuration: features as a sequence of [id, name, table, scored], tables by name *)
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
ConfigOk(feats) == Distinct([i \in 1..Len(feats) |-> feats[i].id]) /\ Distinct([i \in 1..Len(feats) |-> feats[i].name])
FeatIx(feats, id) == {i \in 1..Len(feats) : feats[i].id = id}
Feat(feats, id) == feats[CHOOSE i \in FeatIx(feats, id) : TRUE]
(* raw: sequence of [id, o, k, w]; mapped: sequence of [name, o, k, w] in any order *)
RawKnown(feats, tables, raw) == \A r \in 1..Len(raw) : FeatIx(feats, raw[r].id) # {} => \A x \in 1..Len(raw[r].k) : Known(tables[Feat(feats, raw[r].id).table], raw[r].k[x])
MapOne(feats, tables, r) == LET f == Feat(feats, r.id) IN [name |-> f.name, o |-> r.o, k |-> [x \in 1..Len(r.k) |-> IndexOf(tables[f.table], r.k[x])], w |-> r.w]
MapIds(feats, tables, raw) == {MapOne(feats, tables, raw[r]) : r \in {i \in 1..Len(raw) : FeatIx(feats, raw[i].id) # {}}}
(* ---- transforms; each result is [ok, d] ---- *)
Yes(d) == [ok |-> TRUE, d |-> d]
No == [ok |-> FALSE, d |-> <<>>]
Put(d, k, x) == [y \in DOMAIN d \cup {k} |-> IF y = k THEN x ELSE d[y]]
Drop(d, k) == [y \in DOMAIN d \ {k} |-> d[y]]
Flat(mm) == LET n == Cols(mm) IN [i \in 1..(Len(mm) * n) |-> mm[((i - 1) \div n) + 1][((i - 1) % n) + 1]]
Cut(v, n) == [i \in 1..(Len(v) \div n) |-> SubSeq(v, (i - 1) * n + 1, i * n)]
Masked(m, p) == [i \in 1..Len(m) |-> [j \in 1..Len(m[i]) |-> m[i][j] * p[i][j]]]
OneHot(v, n) == [i \in 1..Len(v) |-> [j \in 1..n |-> IF v[i] = j - 1 THEN 1 ELSE 0]]
Pair(d, k) == IF Has(d, k \o "_presence") THEN Put(Drop(d, k \o "_presence"), k, [t |-> "p", v |-> d[k].v, p |-> d[k \o "_presence"].v]) ELSE d
Over(ks, d, F(_, _)) == LET G[i \in 0..Len(ks)] == IF i = 0 THEN Yes(d) ELSE IF G[i - 1].ok THEN F(G[i - 1].d, ks[i]) ELSE No IN G[Len(ks)]
(* one key at a time *)
DoPair(d, k) == Yes(Pair(d, k))
DoDouble(d, k) == Yes(Put(d, k, [d[k] EXCEPT !.v = [i \in 1..Len(d[k].v) |-> [j \in 1..Len(d[k].v[i]) |-> 2 * d[k].v[i][j]]]]))
DoMask(d, k) == IF d[k].t # "p" \/ Len(d[k].v) # Len(d[k].p) \/ Cols(d[k].v) # Cols(d[k].p) THEN No ELSE Yes(Put(d, k, [t |-> "m", v |-> Masked(d[k].v, d[k].p)]))
DoColumn(d, k) == LET x == IF d[k].t = "p" THEN [t |-> "m", v |-> d[k].v] ELSE d[k] IN
   IF x.t = "v" THEN Yes(Put(d, k, [t |-> "m", v |-> [i \in 1..Len(x.v) |-> <<x.v[i]>>]]))
   ELSE IF x.t = "m" /\ Cols(x.v) = 1 THEN Yes(Put(d, k, x)) ELSE No
(* learned: the length a fixed-length transform settled on, 0 while it has not *)
Lengths(o) == IF Len(o) > 1 THEN o[2] - o[1] ELSE 0
Regular(o, n) == \A i \in 1..Len(o) : o[i] = (i - 1) * n
Norm(x) == [t |-> "m", v |-> Masked(x.v, x.p)]
Slates(m, n) == Cut(m, n)
(* ops.  c: configuration of the pipeline; op: the transform; n: its settled length.  Result [ok, d, n] *)
Fixed(op, d, n0) ==
  LET F[i \in 0..Len(op.keys)] ==
        IF i = 0 THEN [ok |-> TRUE, d |-> d, n |-> n0]
        ELSE LET p == F[i - 1] IN
             IF ~p.ok THEN p
             ELSE LET q == p.d[op.keys[i]].s[op.sid]
                      n == IF p.n # 0 THEN p.n ELSE IF Len(q.o) > 1 THEN q.o[2] - q.o[1] ELSE Len(q.v)
                  IN IF ~Regular(q.o, n) THEN [ok |-> FALSE, d |-> <<>>, n |-> n]
                     ELSE [ok |-> TRUE, d |-> Put(p.d, op.to[i], [t |-> "p", v |-> q.v, p |-> q.p]), n |-> n]
  IN F[Len(op.keys)]
Keyed(r, n) == [ok |-> r.ok, d |-> r.d, n |-> n]
OpIds(c, d, k, op) ==
  IF Len(c.feats) = 0 \/ ~Has(d, k) THEN Yes(Put(d, k, [t |-> "n"]))
  ELSE IF d[k].t # "i" \/ ~RawKnown(c.feats, c.tables, d[k].v) THEN No
  ELSE Yes(Put(d, k, [t |-> "j", v |-> MapIds(c.feats, c.tables, d[k].v)]))
DoOp(c, op, d, n) ==
  CASE op.op = "pair" -> Keyed(Over(op.keys, d, DoPair), n)
    [] op.op = "double" -> Keyed(Over(op.keys, d, DoDouble), n)
    [] op.op = "mask" -> Keyed(Over(op.keys, d, DoMask), n)
    [] op.op = "column" -> Keyed(Over(op.keys, d, DoColumn), n)
    [] op.op = "onehot" -> LET F(x, k) == IF \A i \in 1..Len(x[k].v) : x[k].v[i] <= op.n THEN Yes(Put(x, k, [t |-> "m", v |-> OneHot(x[k].v, op.n)])) ELSE No IN Keyed(Over(op.keys, d, F), n)
    [] op.op = "normal" -> LET F(x, k) == Yes(Put(x, k, Norm(x[k]))) IN Keyed(Over(op.keys, d, F), n)
    [] op.op = "slate" -> LET F(x, k) == IF Len(x[k].v) % op.n # 0 THEN No ELSE Yes(Put(x, k, [t |-> "c", v |-> Slates(x[k].v, op.n)])) IN Keyed(Over(op.keys, d, F), n)
    [] op.op = "stack" -> LET F(x, k) == IF x[k].t = "m" THEN (IF Cols(x[k].v) = op.n THEN Yes(x) ELSE No)
                                         ELSE IF Len(Flat(x[k].v)) % op.n # 0 THEN No ELSE Yes(Put(x, k, [t |-> "m", v |-> Cut(Flat(x[k].v), op.n)])) IN Keyed(Over(op.keys, d, F), n)
    [] op.op = "fixed" -> Fixed(op, d, n)
    [] op.op = "fixednormal" ->
         LET r == Fixed(op, d, n)
             F(x, k) == LET y == Norm(x[k]).v IN IF Len(y) % r.n # 0 THEN No ELSE Yes(Put(x, k, [t |-> "c", v |-> Slates(y, r.n)]))
         IN IF ~r.ok THEN r ELSE Keyed(Over(op.to, r.d, F), r.n)
    [] op.op = "ids" -> LET F(x, k) == OpIds(c, x, k, op) IN Keyed(Over(op.keys, d, F), n)
(* the pipeline: ns are the settled lengths of its transforms *)
Pipeline(c, d, ns) ==
  LET G[i \in 0..Len(c.ops)] ==
        IF i = 0 THEN [ok |-> TRUE, d |-> d, ns |-> ns]
        ELSE LET p == G[i - 1] IN
             IF ~p.ok THEN p
             ELSE LET r == DoOp(c, c.ops[i], p.d, p.ns[i]) IN [ok |-> r.ok, d |-> r.d, ns |-> [p.ns EXCEPT ![i] = r.n]]
  IN G[Len(c.ops)]
(* identifier features compare as sets by name *)
Shape(x) == IF x.t = "j" THEN [t |-> "j", v |-> {x.v[i] : i \in 1..Len(x.v)}] ELSE x
Same(want, got) == DOMAIN want = DOMAIN got /\ \A k \in DOMAIN want : want[k] = Shape(got[k])
(* ---- batches for learners ---- *)
AnyOf(r) == IF \E i \in 1..Len(r) : r[i] # 0 THEN 1 ELSE 0
ColumnOf(v) == [i \in 1..Len(v) |-> <<v[i]>>]
====
