---- MODULE P24Trace ----
EXTENDS Features, TLC, Json, IOUtils
VARIABLES t, l, st, bad
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
Start(c) == [ns |-> IF c.kind = "pipe" THEN [i \in 1..Len(c.ops) |-> c.ops[i].len] ELSE <<>>]
Apply(c, s, e) == IF e.ev # "batch" THEN s ELSE [ns |-> Pipeline(c, e.d, s.ns).ns]
F(e, k) == e.inp[k]
One(u) == u * 8192
Floats(m) == [i \in 1..Len(m) |-> [j \in 1..Len(m[i]) |-> m[i][j] * 8192]]
Clauses(X) == IF X \ {""} = {} THEN "" ELSE CHOOSE z \in X \ {""} : TRUE
Want(e, name, want, got) == IF want = got THEN "" ELSE "training input has a wrong " \o name
Common(e) ==
  {Want(e, "state", Masked(e.inp.state, e.inp.sp), e.out.state), Want(e, "next state", Masked(e.inp.next, e.inp.np), e.out.next)}
  \cup {Want(e, k, ColumnOf(e.inp.col[k]), e.out.col[k]) : k \in DOMAIN e.inp.col}
Discrete(c, e) == Common(e) \cup
  {Want(e, "action", OneHot(e.inp.a, c.n), e.out.a), Want(e, "next action", OneHot(e.inp.na, c.n), e.out.na),
   Want(e, "terminal flag", [i \in 1..Len(e.inp.pn) |-> <<AnyOf(e.inp.pn[i])>>], e.out.nt),
   Want(e, "possible actions mask", e.inp.pa, e.out.pa), Want(e, "possible next actions mask", e.inp.pn, e.out.pn)}
Vectors(c, e) == Common(e) \cup
  {Want(e, "action", Masked(e.inp.a, e.inp.ap), e.out.a), Want(e, "next action", Masked(e.inp.na, e.inp.nap), e.out.na),
   Want(e, "terminal flag", ColumnOf(e.inp.nt), e.out.nt)}
  \cup (IF c.algo = "parametric" THEN {Want(e, "possible actions mask", e.inp.pa, e.out.pa), Want(e, "possible next actions mask", e.inp.pn, e.out.pn)} ELSE {})
Verdict(c, s, e) ==
  CASE e.ev = "dense" ->
         IF e.exc # "" THEN "sparse rows were refused"
         ELSE IF Len(e.v) # Len(e.rows) THEN "rows were lost"
         ELSE Clauses({IF e.v[i] # Dense(c, e.rows[i]) THEN "a feature is not in its column" ELSE IF e.p[i] # Presence(c, e.rows[i]) THEN "the presence of a feature is wrong" ELSE "" : i \in 1..Len(e.rows)})
    [] e.ev = "config" ->
         IF ~ConfigOk(c.feats) THEN (IF e.exc # "" THEN "" ELSE "a configuration with duplicate features was accepted")
         ELSE IF e.exc # "" THEN "a proper configuration was refused"
         ELSE IF \E i \in 1..Len(c.feats) : e.names[i] # c.feats[i].name \/ e.ids[i] # c.feats[i].id \/ e.maps[i] # c.feats[i].table THEN "feature names and identifiers do not match" ELSE ""
    [] e.ev = "batch" ->
         LET r == Pipeline(c, e.d, s.ns) IN
         IF ~r.ok THEN (IF e.exc = "" THEN "malformed input was not refused" ELSE "")
         ELSE IF e.exc # "" THEN "well-formed input was refused"
         ELSE IF ~Same(r.d, e.out) THEN "the transformed batch is wrong" ELSE ""
    [] e.ev = "inputs" ->
         IF e.exc # "" THEN "a training batch was refused"
         ELSE Clauses(IF c.algo = "discrete" THEN Discrete(c, e) ELSE Vectors(c, e))
    [] OTHER -> "unknown event"
INSTANCE TraceBase
====
