---- MODULE P19Trace ----
EXTENDS Planning, TLC, Json, IOUtils
VARIABLES t, l, st, bad
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
Start(c) == IF "pop" \in DOMAIN c THEN Begin(c) ELSE [it |-> 0]
(* e.nexts comes as a sequence *)
Ev(e) == [e EXCEPT !.nexts = {e.nexts[i] : i \in 1..Len(e.nexts)}]
Coord(c, s, d) == (s.step - 1) * Dims(c) + d
Far(c, s, e) == ~c.disc /\ \E d \in 1..Dims(c) : LET k == Coord(c, s, d)  x == e.a[d] - s.mean[k] IN Held(c, s, k) > 400 /\ 2 * Mul(x, x) >= Held(c, s, k)
Step2(c, s0, e) == LET s == [s0 EXCEPT !.far = @ \/ Far(c, s0, e)]  n == Take(c, s, Ev(e)) IN IF ~c.disc /\ Full(c, n) THEN Refine(c, n) ELSE n
Apply(c, s, e) == IF e.ev = "call" THEN Step2(c, s, e) ELSE s
InBounds(c, e) == \A d \in 1..Dims(c) : Within(e.a[d], c.lo[d], c.hi[d], 2)
NearMean(c, s, e) == \A d \in 1..Dims(c) : LET k == Coord(c, s, d)  x == e.a[d] - s.mean[k] IN Mul(x, x) <= 4 * Held(c, s, k) + 240
Call(c, s, e) ==
  IF Full(c, s) \/ (~c.disc /\ Spent(c, s)) THEN "more plans were tried than configured"
  ELSE IF e.s \notin s.at THEN "a step did not start where the previous one ended"
  ELSE IF s.step > 1 /\ e.m # s.m THEN "a trajectory changed its world model"
  ELSE IF Len(s.plan) >= s.step /\ s.plan[s.step] # e.a THEN "one plan was tried with different actions"
  ELSE IF c.disc THEN (IF e.a \in 0..(c.n - 1) THEN "" ELSE "an action outside the action space was tried")
  ELSE IF Len(e.a) # Dims(c) \/ ~InBounds(c, e) THEN "an action outside its bounds was tried"
  ELSE IF s.blur THEN ""
  ELSE IF s.sols = <<>> /\ s.tr = 1 /\ s.step = 1 /\ Settled(c, s, 0 - 40) THEN "planning went on after it had settled"
  ELSE IF ~NearMean(c, s, e) THEN "a plan lies too far from the elite of the last round"
  ELSE ""
(* enough plans to expect every first action, and every model, to be tried *)
Many(c) == c.pop >= 64
Out(c, s, d) == Mul(Div(s.mean[d] - c.lo[d], c.hi[d] - c.lo[d]), 2 * Unit) - Unit
PlanEv(c, s, e) ==
  IF e.exc # "" THEN "planning failed"
  ELSE IF s.tr # 1 \/ s.step # 1 THEN "planning ended within a plan"
  ELSE IF c.disc THEN
    (IF ~Full(c, s) THEN "fewer plans were tried than configured"
     ELSE IF ~e.onehot THEN "the action returned is not the one chosen"
     ELSE IF ~Best(c, s, e.a, 2 * c.H + 2) THEN "the chosen action is not the best first action of the plans"
     ELSE IF Many(c) /\ \E a \in 0..(c.n - 1) : Begun(s, a) = {} THEN "an action was never tried first"
     ELSE IF Many(c) /\ Cardinality(s.models) # c.nets THEN "a world model was never used"
     ELSE "")
  ELSE (IF s.sols # <<>> THEN "planning ended within a round"
        ELSE IF \E d \in 1..Dims(c) : ~Within(e.act[d], 0 - Unit, Unit, 1) THEN "the planned action is outside the canonical range"
        ELSE IF c.pop * c.H * Dims(c) >= 60 /\ ~s.far /\ (\A k \in 1..Dims(c) : Wide(c)[k] > 400) THEN "plans hardly vary"
        ELSE IF s.blur THEN ""
        ELSE IF ~Spent(c, s) /\ ~Settled(c, s, 40) THEN "planning stopped before it had settled"
        ELSE IF \E d \in 1..Dims(c) : Abs(Out(c, s, d) - e.act[d]) > 40 THEN "the planned action is not the mean of the elite's first actions"
        ELSE "")
Same(x, y, tol) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : Near(x[i], y[i], tol)
Short(e, b, a) == SumSeq([k \in 1..e.L |-> Mul(TopOf(e.vals[k][b], e.n, k, a), e.p[b][k])])
(* seen: how often each sequence was put to the model, per state *)
QEv(e) ==
  IF Len(e.out) # e.batch \/ \E b \in 1..Len(e.out) : Len(e.out[b]) # e.n THEN "rows or actions lost"
  ELSE IF e.counted /\ \E b \in 1..e.batch : Len(e.seen[b]) # Pow(e.n, e.L) \/ \E i \in 1..Len(e.seen[b]) : e.seen[b][i] # 1 THEN "an action sequence was not evaluated exactly once"
  ELSE IF \E b \in 1..e.batch, a \in 1..e.n : ~Near(e.out[b][a], TopOf(e.val[b], e.n, e.L, a), 2) THEN "the value of a first action is not that of its best sequence"
  ELSE ""
Verdict(c, s, e) ==
  CASE e.ev = "call" -> Call(c, s, e)
    [] e.ev = "plan" -> PlanEv(c, s, e)
    [] e.ev = "q" -> QEv(e)
    [] e.ev = "short" -> IF Len(e.out) # e.batch THEN "rows or actions lost"
                         ELSE IF \E b \in 1..e.batch, a \in 1..e.n : ~Near(e.out[b][a], Short(e, b, a), 4 + e.L) THEN "values of different horizons are not weighed by the chance of each"
                         ELSE ""
    [] OTHER -> "unknown event"
INSTANCE TraceBase
====
