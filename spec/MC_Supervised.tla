---- MODULE MC_Supervised ----
(* Laws of the losses and metrics on small inputs, and the learner/evaluator machine: training and evaluating in any order
   over a one-weight learner, the best model kept being one that scored the lowest mean loss. *)
EXTENDS Supervised
CONSTANTS MaxK
Half == Unit \div 2
Vals == {0 - Unit, 0 - Half, 0, Half, Unit}
(* every cost is least at the target and its slope points away from it *)
ASSUME \A L \in {"MSE_Loss", "SmoothL1_Loss", "L1_Loss"} : \A p, y \in Vals : Cost(L, p, y) >= Cost(L, y, y) /\ Sign(Slope(L, p, y)) = Sign(p - y)
ASSUME \A p, y \in {Half \div 2, Half, Half + (Half \div 2)} : Cost("BCE_Loss", p, y) >= Cost("BCE_Loss", y, y) - 4 /\ Sign(Slope("BCE_Loss", p, y)) = Sign(p - y)
(* a cost is the sum of its slopes: finite differences *)
ASSUME \A L \in {"MSE_Loss", "SmoothL1_Loss"} : \A p, y \in Vals : LET h == 64 IN Abs((Cost(L, p + h, y) - Cost(L, p - h, y)) * 64 - Slope(L, p, y)) <= 256
(* metrics of all orders of four items *)
Orders(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]}
Useful == {y \in [1..4 -> 0..1] : Wanted(y) > 0 /\ Wanted(y) < 4}
Perfect(y, o) == \A i, j \in 1..4 : i < j => y[o[i]] >= y[o[j]]
ASSUME \A y \in Useful : \A o \in Orders(4) :
   /\ Ndcg(y, o) <= Unit + 4 /\ Ap(y, o) <= Unit /\ Auc(y, o) <= Unit /\ Auc(y, o) >= 0
   /\ Perfect(y, o) <=> Auc(y, o) = Unit
   /\ Perfect(y, o) => Abs(Ndcg(y, o) - Unit) <= 4 /\ Ap(y, o) = Unit
   /\ Auc(y, o) + Auc(y, [i \in 1..4 |-> o[5 - i]]) \in {Unit, Unit - 1}
(* exchanging a wanted item upwards never worsens a metric *)
ASSUME \A y \in Useful : \A o \in Orders(4) : \A i \in 1..3 : (y[o[i]] = 0 /\ y[o[i + 1]] = 1) =>
   LET o2 == [o EXCEPT ![i] = o[i + 1], ![i + 1] = o[i]] IN Dcg(y, o2) > Dcg(y, o) /\ Ap(y, o2) > Ap(y, o) /\ Auc(y, o2) > Auc(y, o)
(* a discounted return looks only at the valid steps; the best continuation is at least any sequence *)
ASSUME \A r \in [1..3 -> {0, Unit}] : \A len \in 1..3 : Return([gamma |-> Half], r, len) = Return([gamma |-> Half], [i \in 1..3 |-> IF i <= len THEN r[i] ELSE 0], 3)
TinyTh == {[s |-> <<Unit>>, a |-> <<<<x, 0>>, <<y, Half>>>>] : x, y \in {0 - Unit, 0, Unit}}
ASSUME \A th \in TinyTh : \A a \in 1..2 : \A b \in 1..2 : QOf([L |-> 2, n |-> 2], th, <<Half>>)[a] >= Predict(th, <<Half>>, <<a, b>>, 2)
ASSUME \A th \in TinyTh : \A a \in 1..2 : \E b \in 1..2 : QOf([L |-> 2, n |-> 2], th, <<Half>>)[a] = Predict(th, <<Half>>, <<a, b>>, 2)
(* the middling category of a coded feature *)
Coded == {f \in [1..3 -> 1..3] : TRUE}
ASSUME \A f \in Coded : LET st == [i \in 1..3 |-> [x |-> [j \in 1..3 |-> IF f[i] = j THEN Unit ELSE 0]]] IN Middling(st, 1, 3) # {}
(* ---- the machine ---- *)
VARIABLES th, ev, k, seen, acc, fired
vars == <<th, ev, k, seen, acc, fired>>
C == [loss |-> "MSE_Loss", lr |-> Half \div 2, cut |-> TRUE, limit |-> Half]
Row(y) == <<[s |-> 1, y |-> y]>>
Init == th = <<Unit>> /\ ev = FreshEval /\ k = 0 /\ seen = <<>> /\ acc = 0 /\ fired = 0
Train(y) == LET rows == Counts(C, Row(y)) IN Len(rows) > 0 /\ th' = RewardStep(C, th, rows) /\ UNCHANGED <<ev, seen, acc, fired>>
Eval(y) == Len(ev.loss) < 2 /\ ev' = See(C, ev, th, Row(y)) /\ UNCHANGED <<th, seen, acc, fired>>
Rep == ev.loss # <<>> /\ ev' = Report(ev, th) /\ seen' = Append(seen, [th |-> th, m |-> Mean(ev.loss)]) /\ UNCHANGED <<th, acc, fired>>
Imit == LET r == ImitTrain([every |-> 2, lr |-> Half], k, <<<<acc, 0>>>>, <<<<0, 0>>>>, <<[s |-> 1, a |-> 1]>>) IN UNCHANGED <<th, ev, seen>> /\ acc' = r.acc[1][1] /\ fired' = fired + (IF r.fire THEN 1 ELSE 0)
Next == k < MaxK /\ k' = k + 1 /\ ((\E y \in {0, Half, Unit} : Train(y) \/ Eval(y)) \/ Rep \/ Imit)
Spec == Init /\ [][Next]_vars
BestIsLowest == seen # <<>> => /\ ev.top = SMin({seen[i].m : i \in 1..Len(seen)}) /\ \E i \in 1..Len(seen) : seen[i].th = ev.best /\ seen[i].m = ev.top
Together == Len(ev.y) = Len(ev.p)
(* rewards above the limit never pull the prediction up past it *)
NotPulled == th[1] <= Unit
====
