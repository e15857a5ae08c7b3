---- MODULE P35Trace ----
EXTENDS Tables, TLC, Json, IOUtils
VARIABLES t, l, st, bad
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
Start(c) == [got |-> {}, pub |-> 0]
Rows(c) == c.rows
(* the logged row a training row stands for *)
Of(c, o) == {i \in 1..Len(c.rows) : c.rows[i].h = o.h /\ c.rows[i].seq = o.seq}
RowBad(c, names, row, o) ==
  LET k == Span(c, row) IN
  IF ~Near(o.reward, Reward(c, row), 6) THEN "the reward is not the discounted (or derived) one of its own steps"
  ELSE IF o.s # Dense(row.s, names.s) THEN "a state is not the logged one"
  ELSE IF o.ns # Dense(row.ns[k], names.s) THEN "the next state is not that of the last step spanned"
  ELSE IF o.m # Dense(row.m[k], names.m) THEN "the metrics are not those of the last step spanned"
  ELSE IF o.step # k THEN "the number of steps spanned is wrong"
  ELSE IF o.td # row.td[k] THEN "the time difference is not that of the last step spanned"
  ELSE IF o.prob # row.prob THEN "the probability is not the logged one"
  ELSE IF c.disc = 1 THEN
       (IF o.a # Place(c.actions, row.a) THEN "the action is not the logged one"
        ELSE IF o.na # Place(c.actions, row.na[k]) THEN "the next action is not that of the last step spanned"
        ELSE IF o.nt # (IF Place(c.actions, row.na[k]) < Len(c.actions) THEN 1 ELSE 0) THEN "the end of an episode is marked wrongly"
        ELSE IF o.pa # Bits(c.actions, row.pa) THEN "the possible actions are not the logged ones"
        ELSE IF o.pna # Bits(c.actions, row.pna[k]) THEN "the possible next actions are not those of the last step spanned" ELSE "")
  ELSE IF o.a # Dense(row.a, names.a) THEN "the action is not the logged one"
       ELSE IF o.na # Dense(row.na[k], names.a) THEN "the next action is not that of the last step spanned"
       ELSE IF o.nt # (IF Len(row.na[k]) > 0 THEN 1 ELSE 0) THEN "the end of an episode is marked wrongly" ELSE ""
Names(c) == [s |-> StateNames(c.rows), m |-> MetricNames(c.rows), a |-> IF c.disc = 1 THEN <<>> ELSE ActionNames(c.rows)]
Query(c, s, e) ==
  LET names == TLCEval(Names(c))
      wide(o) == Len(o.s) = Len(names.s) /\ Len(o.ns) = Len(names.s) /\ Len(o.m) = Len(names.m) /\ (c.disc = 0 => Len(o.a) = Len(names.a) /\ Len(o.na) = Len(names.a))
      bads == TLCEval({<<i, RowBad(c, names, c.rows[CHOOSE j \in Of(c, e.rows[i]) : TRUE], e.rows[i])>> : i \in {i \in 1..Len(e.rows) : Of(c, e.rows[i]) # {} /\ wide(e.rows[i])}})
  IN IF e.bad = 1 THEN (IF e.exc = "" THEN "an impossible share was accepted" ELSE "")
     ELSE IF e.exc # "" THEN "a table could not be queried"
     ELSE IF e.fresh = 0 THEN "a query wrote over an existing table"
     ELSE IF \E i \in 1..Len(e.rows) : Of(c, e.rows[i]) = {} THEN "a training row stands for no logged step"
     ELSE IF \E i, j \in 1..Len(e.rows) : i < j /\ e.rows[i].h = e.rows[j].h /\ e.rows[i].seq = e.rows[j].seq THEN "a logged step appears twice"
     ELSE IF \E i \in 1..Len(c.rows) : Surely(c.rows[i].h, e.lo, e.hi) /\ ~(\E j \in 1..Len(e.rows) : e.rows[j].h = c.rows[i].h /\ e.rows[j].seq = c.rows[i].seq) THEN "a sampled step is missing"
     ELSE IF \E j \in 1..Len(e.rows) : ~Possibly(e.rows[j].h, e.lo, e.hi) THEN "a step outside the sample was taken"
     ELSE IF \E j \in 1..Len(e.rows) : ~wide(e.rows[j]) THEN "the columns depend on the sample"
     ELSE IF \E b \in bads : b[2] # "" THEN (CHOOSE b \in bads : b[2] # "")[2]
     ELSE IF \E j \in 1..Len(e.rows) : <<e.rows[j].h, e.role>> \in {<<x[1], 1 - x[2]>> : x \in {y \in s.got : y[2] \in {0, 1}}} THEN "training and evaluation share an episode"
     ELSE ""
(* identification: which features, and what is known of each *)
ColValues(c, e, f) ==
  LET of(i) == IF e.col = "s" THEN c.rows[i].s ELSE IF e.col = "a" THEN c.rows[i].a ELSE c.rows[i].m[1]
      has == {i \in 1..Len(c.rows) : Listed(of(i), f) # {}}
  IN [i \in has |-> of(i)[CHOOSE x \in Listed(of(i), f) : TRUE].v]
SumOver(g) == LET F[S \in SUBSET DOMAIN g] == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN g[x] + F[S \ {x}] IN F[DOMAIN g]
RECURSIVE AddUp(_, _)
AddUp(g, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN g[x] + AddUp(g, S \ {x})
Enough == 20
Identify(c, e) ==
  LET seen == TLCEval({f \in 0..99 : DOMAIN ColValues(c, e, f) # {}})
      \* too few values tell nothing of a feature
      feats == {f \in seen : Cardinality(DOMAIN ColValues(c, e, f)) >= Enough}
      want == IF e.white = <<>> THEN feats ELSE {f \in feats : \E i \in 1..Len(e.white) : e.white[i] = f}
      lacks == \E i \in 1..Len(e.white) : e.white[i] \notin feats
      few == \E f \in seen : Cardinality(DOMAIN ColValues(c, e, f)) < e.n
  IN IF (lacks /\ e.cover = 1) \/ few THEN (IF e.exc = "" THEN "identification went on without features or values it needs" ELSE "")
     ELSE IF e.exc # "" THEN "a column could not be identified"
     ELSE IF {e.out[i].f : i \in 1..Len(e.out)} # want THEN "the features identified are not those of the column"
     ELSE IF \E i \in 1..Len(e.out) : LET o == e.out[i]  g == ColValues(c, e, o.f) IN
               \/ o.type # "CONTINUOUS"
               \/ o.lo # (CHOOSE x \in {g[j] : j \in DOMAIN g} : \A j \in DOMAIN g : x <= g[j]) /\ e.all = 1
               \/ o.hi # (CHOOSE x \in {g[j] : j \in DOMAIN g} : \A j \in DOMAIN g : x >= g[j]) /\ e.all = 1
               \/ o.lo \notin {g[j] : j \in DOMAIN g} \/ o.hi \notin {g[j] : j \in DOMAIN g}
               \/ (e.all = 1 /\ ~Near(o.mean * Cardinality(DOMAIN g), AddUp(g, DOMAIN g), 8 * Cardinality(DOMAIN g)))
            THEN "a feature was identified from values not its own" ELSE ""
(* what a learner is handed: the queried rows, in order, in batches, each feature normalised by its own rule *)
Prep(nf, x) == IF x[1] = 0 THEN 0 ELSE IF nf.type = "BINARY" THEN (IF x[2] = 0 THEN 0 ELSE Unit) ELSE Mul(x[2] - nf.mean, nf.inv)
OrderOf(nfs) == SelectSeq(nfs, LAMBDA n : n.type = "BINARY") \o SelectSeq(nfs, LAMBDA n : n.type # "BINARY")
Column(c, names, f) == CHOOSE j \in 1..Len(names) : names[j] = f
Vec(nfs, f) == LET o == OrderOf(nfs) IN [j \in 1..Len(o) |-> Prep(o[j], LET w == Listed(f, o[j].f) IN IF w = {} THEN <<0, 0>> ELSE <<1, f[CHOOSE i \in w : TRUE].v>>)]
NearVec(x, y) == Len(x) = Len(y) /\ \A j \in 1..Len(x) : Near(x[j], y[j], 8)
Hot(i, n) == [j \in 1..n |-> IF j = i + 1 THEN Unit ELSE 0]
Feed(c, e) ==
  LET row(i) == c.rows[CHOOSE j \in 1..Len(c.rows) : c.rows[j].h = e.src[i].h /\ c.rows[j].seq = e.src[i].seq]
      n == Len(c.actions)
  IN IF e.exc # "" THEN "the queried rows could not be fed to the learner"
     ELSE IF e.sizes # [i \in 1..Len(e.sizes) |-> IF i * e.b <= Len(e.src) THEN e.b ELSE Len(e.src) % e.b] \/ Len(e.out) # Len(e.src) THEN "the batches are not the queried rows"
     ELSE IF \E i \in 1..Len(e.out) : ~NearVec(e.out[i].s, Vec(c.norm, row(i).s)) THEN "a state is not fed as its features' own values"
     ELSE IF \E i \in 1..Len(e.out) : ~NearVec(e.out[i].ns, Vec(c.norm, row(i).ns[Span(c, row(i))])) THEN "a next state is not fed as its features' own values"
     ELSE IF \E i \in 1..Len(e.out) : ~Near(e.out[i].r, Reward(c, row(i)), 6) THEN "a reward was not fed"
     ELSE IF \E i \in 1..Len(e.out) : (c.disc = 1 /\ (e.out[i].a # Hot(Place(c.actions, row(i).a), n) \/ e.out[i].na # Hot(Place(c.actions, row(i).na[Span(c, row(i))]), n)))
                                       \/ (c.disc = 0 /\ (~NearVec(e.out[i].a, Vec(c.anorm, row(i).a)) \/ ~NearVec(e.out[i].na, Vec(c.anorm, row(i).na[Span(c, row(i))])))) THEN "an action was not fed"
     ELSE ""
Verdict(c, s, e) ==
  CASE e.ev = "query" -> Query(c, s, e)
    [] e.ev = "identify" -> Identify(c, e)
    [] e.ev = "feed" -> Feed(c, e)
    [] OTHER -> ""
Apply(c, s, e) == IF e.ev = "query" /\ e.exc = "" THEN [s EXCEPT !.got = @ \cup {<<e.rows[j].h, e.role>> : j \in 1..Len(e.rows)}] ELSE s
INSTANCE TraceBase
====
