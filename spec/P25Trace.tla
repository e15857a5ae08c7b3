---- MODULE P25Trace ----
EXTENDS Preprocess, TLC, Json, IOUtils
VARIABLES t, l, st, bad
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
Start(c) == [ly |-> IF c.kind = "pre" THEN TLCEval(Layout(c.fs)) ELSE <<>>]
Apply(c, s, e) == s
Clauses(X) == IF X \ {""} = {} THEN "" ELSE CHOOSE z \in X \ {""} : TRUE
Risky(ly, e) == e.training /\ \E p \in 1..Len(ly) : ly[p].ty = "DISCRETE_ACTION" /\ \E i \in 1..Len(e.x) : e.p[i][p] # 0 /\ Abs(e.x[i][p]) > Top
RowOk(ly, st0, x, p, y) ==
  Clauses({LET f == ly[q]
               want == Entry(f, x[q], p[q])
               got == SubSeq(y, st0[q] + 1, st0[q] + Width(f))
           IN IF p[q] = 0 THEN (IF got = want THEN "" ELSE "a missing entry is not zero")
              ELSE IF \E k \in 1..Width(f) : ~Bounded(f, got[k]) THEN "an output is out of range"
              ELSE IF \E k \in 1..Width(f) : ~Near(got[k], want[k], Slack(f, x[q])) THEN "a feature is not normalised by its own parameters" ELSE "" : q \in 1..Len(ly)})
(* ---- identification ---- *)
Names(e) == IF e.override # "" THEN e.override ELSE Guess(e.v, e.most)
MayBe(e) == IF Names(e) # "CONTINUOUS" THEN {Names(e)} ELSE {"CONTINUOUS"} \cup (IF e.skipbox THEN {} ELSE {"BOXCOX"}) \cup (IF e.skipq THEN {} ELSE {"QUANTILE"})
Rough(m, x) == Near(m, x, 16 + Abs(x) \div 256)
Transformed(e) == [i \in 1..Len(e.v) |-> BoxCox([shift |-> e.out.shift, lambda |-> e.out.lambda], e.v[i])]
Close(a, S) == \E x \in S : Abs(x - a) <= 8
Identify(c, e) ==
  IF Len(e.v) < 20 THEN (IF e.none \/ e.exc # "" THEN "" ELSE "too few values were enough")
  ELSE IF e.exc # "" \/ e.none THEN "a feature could not be identified"
  ELSE LET o == e.out IN
    IF o.ty \notin MayBe(e) THEN "the type of a feature is wrong"
    ELSE IF Cardinality(ValueSet(e.v)) > 1 /\ (o.min # SMin(ValueSet(e.v)) \/ o.max # SMax(ValueSet(e.v))) THEN "the range of a feature is wrong"
    ELSE CASE o.ty = "ENUM" -> IF o.values = [k \in 1..Len(o.values) |-> o.values[k]] /\ {o.values[k] * Unit : k \in 1..Len(o.values)} = ValueSet(e.v) /\ Len(o.values) = Cardinality(ValueSet(e.v)) /\ \A k \in 1..(Len(o.values) - 1) : o.values[k] < o.values[k + 1] THEN "" ELSE "the values of an enumeration are wrong"
           [] o.ty \in {"CONTINUOUS", "CONTINUOUS_ACTION"} -> IF Cardinality(ValueSet(e.v)) = 1 THEN "" ELSE IF Rough(o.mean, Mean(e.v)) /\ Rough(o.std, Spread(e.v)) THEN "" ELSE "the mean or deviation of a feature is wrong"
           [] o.ty = "BOXCOX" -> IF o.shift # 0 - SMin(ValueSet(e.v)) THEN "the shift of a power transform is wrong" ELSE ""
           [] o.ty = "QUANTILE" -> IF Len(o.q) >= 2 /\ Len(o.q) <= e.size + 1 /\ (\A k \in 1..(Len(o.q) - 1) : o.q[k] <= o.q[k + 1])
                 /\ (\A k \in 1..Len(o.q) : Close(o.q[k], Cuts(e.sorted, e.size))) /\ (\A x \in Cuts(e.sorted, e.size) : Close(x, {o.q[k] : k \in 1..Len(o.q)})) THEN "" ELSE "the quantiles of a feature are wrong"
           [] OTHER -> ""
Verdict(c, s, e) ==
  CASE e.ev = "layout" ->
         IF e.exc # "" THEN "the normalisation was refused"
         ELSE IF e.sorted # [p \in 1..Len(s.ly) |-> s.ly[p].id] \/ e.sorted2 # e.sorted THEN "the columns are not grouped by type in order of identifier"
         ELSE IF e.starts # Starts(s.ly) \/ e.n # Outputs(s.ly) THEN "the output columns are not where they are said to be" ELSE ""
    [] e.ev = "out" ->
         IF e.exc # "" THEN (IF Risky(s.ly, e) THEN "" ELSE "features were refused")
         ELSE IF Len(e.y) # Len(e.x) THEN "rows were lost"
         ELSE IF \E i \in 1..Len(e.y) : Len(e.y[i]) # Outputs(s.ly) THEN "there are more or fewer outputs than said"
         ELSE LET st0 == TLCEval(Starts(s.ly)) IN Clauses({RowOk(s.ly, st0, e.x[i], e.p[i], e.y[i]) : i \in 1..Len(e.x)})
    [] e.ev = "mono" -> IF e.exc # "" THEN "features were refused"
         ELSE IF \E i \in 1..(Len(e.y) - 1) : e.y[i] > e.y[i + 1] + e.slack THEN "a larger input gave a smaller output"
         ELSE IF \E i \in 1..Len(e.y) : e.y[i] < e.lo \/ e.y[i] > e.hi THEN "an output is out of range" ELSE ""
    [] e.ev = "shape" -> IF e.exc = "" THEN "mismatched presence was accepted" ELSE ""
    [] e.ev = "identify" -> Identify(c, e)
    [] e.ev = "roundtrip" -> IF e.exc # "" THEN "parameters could not be stored" ELSE IF e.back # e.given THEN "stored parameters came back changed" ELSE ""
    [] e.ev = "range" -> IF e.exc # "" THEN "action ranges could not be built" ELSE IF e.lo # [p \in 1..Len(e.want) |-> e.want[p].lo] \/ e.hi # [p \in 1..Len(e.want) |-> e.want[p].hi] THEN "action ranges are out of order" ELSE ""
    [] e.ev = "settles" -> (* identified parameters applied to the values they came from *)
         IF e.exc # "" THEN "identified parameters were refused"
         ELSE IF Abs(e.mean) > e.tol \/ e.std > Unit + e.tol THEN "identified parameters do not standardise the values they came from" ELSE ""
    [] OTHER -> "unknown event"
INSTANCE TraceBase
====
