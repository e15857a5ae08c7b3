---- MODULE Preprocess ----
(* Normalisation of dense features: one function per feature type, the grouped column layout, and the
   identification of a feature's type and parameters from its values. *)
EXTENDS FixMath, FiniteSets
Types == <<"BINARY", "PROBABILITY", "CONTINUOUS", "BOXCOX", "ENUM", "QUANTILE", "CONTINUOUS_ACTION", "DISCRETE_ACTION", "DO_NOT_PREPROCESS", "CLIP_LOG">>
Top == 6 * Unit
Rank(ty) == CHOOSE i \in 1..Len(Types) : Types[i] = ty
(* a configuration is a sequence of features [id, ty, ...]; Before is the column order *)
Before(a, b) == Rank(a.ty) < Rank(b.ty) \/ (a.ty = b.ty /\ a.id < b.id)
Place(fs, i) == 1 + Cardinality({j \in 1..Len(fs) : Before(fs[j], fs[i])})
Layout(fs) == [p \in 1..Len(fs) |-> fs[CHOOSE i \in 1..Len(fs) : Place(fs, i) = p]]
Width(f) == IF f.ty = "ENUM" THEN Len(f.values) ELSE 1
Starts(ly) == [p \in 1..Len(ly) |-> SumSeq([q \in 1..(p - 1) |-> Width(ly[q])])]
Outputs(ly) == SumSeq([q \in 1..Len(ly) |-> Width(ly[q])])
Clamp6(x) == Clip(x, 0 - Top, Top)
LogitHi == 37643
Tiny == 0 - 113177                               \* ln(1e-6)
LnOf(y) == IF y < 1 THEN Tiny ELSE Ln(y)
Power(y, lam) == LET a == Mul(LnOf(y), lam) IN IF a > 77824 THEN 109000000 ELSE IF a < 0 - 100000 THEN 0 ELSE Exp(a)
Standard(f, x) == Clip(Div(Clip(x - f.mean, 0 - 130000000, 130000000), f.std), 0 - 100 * Unit, 100 * Unit)
BoxCox(f, x) == Div(Power(x + f.shift, f.lambda) - Unit, f.lambda)
Segment(q, x) == CHOOSE i \in 1..(Len(q) - 1) : q[i] <= x /\ x < q[i + 1]
Quantile(q, x) == LET n == Len(q) IN
   IF x >= q[n] THEN Unit ELSE IF x <= q[1] THEN 0
   ELSE LET i == Segment(q, x) IN ((i - 1) * Unit + Div(x - q[i], q[i + 1] - q[i])) \div (n - 1)
(* the outputs of one present entry *)
Column(f, x) ==
  CASE f.ty = "BINARY" -> <<IF x = 0 THEN 0 ELSE Unit>>
    [] f.ty = "PROBABILITY" -> <<IF x * 100 <= Unit THEN 0 - LogitHi ELSE IF x * 100 >= 99 * Unit THEN LogitHi ELSE Ln(x) - Ln(Unit - x)>>
    [] f.ty = "CONTINUOUS" -> <<Clamp6(Standard(f, x))>>
    [] f.ty = "BOXCOX" -> <<Clamp6(Standard(f, BoxCox(f, x)))>>
    [] f.ty = "ENUM" -> [k \in 1..Len(f.values) |-> IF f.values[k] = x THEN Unit ELSE 0]
    [] f.ty = "QUANTILE" -> <<Quantile(f.q, x)>>
    [] f.ty = "CONTINUOUS_ACTION" -> <<Clip((2 * Div(x - f.min, f.max - f.min)) - Unit, 0 - Unit, Unit)>>
    [] f.ty = "DISCRETE_ACTION" -> <<Clamp6(x)>>
    [] f.ty = "DO_NOT_PREPROCESS" -> <<x>>
    [] f.ty = "CLIP_LOG" -> <<IF x <= 20 THEN 0 - Top ELSE Clamp6(Ln(x))>>
Slack(f, x) ==
  CASE f.ty = "PROBABILITY" -> 8 + (20 * Unit) \div Max2(80, Min2(Clip(x, 0, Unit), Unit - Clip(x, 0, Unit)))
    [] f.ty = "BOXCOX" -> 24 + Div(Abs(BoxCox(f, x)) \div 128, f.std)
    [] f.ty = "CLIP_LOG" -> 8 + (8 * Unit) \div Max2(x, 8)
    [] OTHER -> 6
Absent(f) == [k \in 1..Width(f) |-> 0]
Entry(f, x, p) == IF p = 0 THEN Absent(f) ELSE Column(f, x)
(* bounded, whatever is present *)
Bounded(f, y) == IF f.ty \in {"DO_NOT_PREPROCESS"} THEN TRUE ELSE IF f.ty \in {"BINARY", "ENUM", "QUANTILE"} THEN 0 <= y /\ y <= Unit ELSE IF f.ty = "CONTINUOUS_ACTION" THEN Abs(y) <= Unit ELSE Abs(y) <= Top
Monotone == {"PROBABILITY", "CONTINUOUS", "QUANTILE", "CONTINUOUS_ACTION", "CLIP_LOG", "BINARY01", "BOXCOX"}
(* ---- identification ---- *)
ValueSet(v) == {v[i] : i \in 1..Len(v)}
IsBinary(v) == ValueSet(v) \subseteq {0, Unit} \/ Cardinality(ValueSet(v)) = 1
IsProbability(v) == \A x \in ValueSet(v) : 0 <= x /\ x <= Unit
IsEnum(v, most) == Cardinality(ValueSet(v)) <= most /\ \A x \in ValueSet(v) : x >= 0 /\ x % Unit = 0
Guess(v, most) == IF IsBinary(v) THEN "BINARY" ELSE IF IsProbability(v) THEN "PROBABILITY" ELSE IF IsEnum(v, most) THEN "ENUM" ELSE "CONTINUOUS"
Square(x) == 16 * Mul(x \div 4, x \div 4)
Mean(v) == SumSeq(v) \div Len(v)
Root(x) == IF x < 262144 THEN Sqrt(x) ELSE 16 * Isqrt((x \div 256) * Unit)
Spread(v) == LET m == Mean(v) IN Max2(Unit, Root(SumSeq([i \in 1..Len(v) |-> Square(v[i] - m)]) \div (Len(v) - 1)))
(* the quantile at share j of size, of sorted values *)
At(sv, j, size) ==
  LET n == Len(sv)  k == Clip((n * j) \div size, 1, n - 1)
      g == Clip((((n * j) - (k * size)) * Unit) \div size, 0, Unit)
  IN sv[k] + Mul(sv[k + 1] - sv[k], g)
Cuts(sv, size) == {At(sv, j, size) : j \in 0..size}
====
