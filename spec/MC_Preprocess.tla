---- MODULE MC_Preprocess ----
(* Laws of every transform over a grid of inputs, and of the column layout over every small mixture of types. *)
EXTENDS Preprocess, TLC, Json
CONSTANTS Kinds, Size
G == {1024 * k : k \in (0 - 40)..40}
Some == [CONTINUOUS |-> {[ty |-> "CONTINUOUS", mean |-> m, std |-> s] : m \in {0, Unit, 0 - Unit}, s \in {Unit \div 2, Unit, 3 * Unit}},
  BOXCOX |-> {[ty |-> "BOXCOX", mean |-> 0, std |-> Unit, shift |-> h, lambda |-> la] : h \in {0, Unit}, la \in {Unit \div 2, 2 * Unit, 0 - Unit}},
  QUANTILE |-> {[ty |-> "QUANTILE", q |-> q] : q \in {<<0, Unit>>, <<0 - Unit, 0, 3 * Unit>>, <<0, Unit \div 8, Unit, 4 * Unit>>}},
  PROBABILITY |-> {[ty |-> "PROBABILITY"]}, CONTINUOUS_ACTION |-> {[ty |-> "CONTINUOUS_ACTION", min |-> 0 - Unit, max |-> 3 * Unit]}, CLIP_LOG |-> {[ty |-> "CLIP_LOG"]}]
ASSUME \A ty \in DOMAIN Some : \A f \in Some[ty] : \A x \in G : Bounded(f, Column(f, x)[1])
ASSUME \A ty \in DOMAIN Some : \A f \in Some[ty] : \A x \in G : x + 1024 \in G => Column(f, x)[1] <= Column(f, x + 1024)[1] + 4
ASSUME \A x \in G : SumSeq(Column([ty |-> "ENUM", values |-> <<0, Unit, 3 * Unit>>], x)) \in {0, Unit}
(* quantiles hit the equal steps exactly *)
ASSUME \A f \in Some["QUANTILE"] : \A i \in 1..Len(f.q) : Abs(Column(f, f.q[i])[1] - (((i - 1) * Unit) \div (Len(f.q) - 1))) <= 1
(* mixtures: states are configurations grown one feature at a time *)
VARIABLES fs
Init == fs = <<>>
Next == Len(fs) < Size /\ \E ty \in Kinds : \E id \in 1..Size : (\A j \in 1..Len(fs) : fs[j].id # id) /\ fs' = Append(fs, IF ty = "ENUM" THEN [id |-> id, ty |-> ty, values |-> [k \in 1..id |-> k * Unit]] ELSE [id |-> id, ty |-> ty])
Spec == Init /\ [][Next]_fs
Ly == Layout(fs)
(* the layout is a permutation, grouped, and its blocks tile the output *)
Permutes == {Ly[p].id : p \in 1..Len(fs)} = {fs[i].id : i \in 1..Len(fs)}
Grouped == \A p, q \in 1..Len(fs) : p < q => Before(Ly[p], Ly[q])
Tiles == \A p \in 1..Len(fs) : Starts(Ly)[p] + Width(Ly[p]) = (IF p = Len(fs) THEN Outputs(Ly) ELSE Starts(Ly)[p + 1])
Emit == Len(fs) = Size => PrintT("GEN " \o ToJson([fs |-> [i \in 1..Len(fs) |-> [id |-> fs[i].id, ty |-> fs[i].ty]]]))
====
