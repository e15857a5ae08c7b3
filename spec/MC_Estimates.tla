---- MODULE MC_Estimates ----
(* Small logs.  A log of two episodes over two actions; what each estimator must recover when the models, or the policy, are right. *)
EXTENDS Estimates, Json
CONSTANTS Lens, MaxSteps, Rewards, Gammas
SomeRewards == {0, Unit, -(Unit \div 2)}
VARIABLES E, g, kind
vars == <<E, g, kind>>
Pis == {<<Unit, 0>>, <<Unit \div 2, Unit \div 2>>, <<Unit \div 4, 3 * (Unit \div 4)>>}
Bare == [a : 1..2, pi : Pis, r : Rewards]
(* logged propensity, and models: "right" knows the returns that follow, "blind" says nothing, "flat" guesses *)
RECURSIVE Rest(_, _, _)
Rest(e, t, gg) == IF t > Len(e) THEN 0 ELSE e[t].r + Disc(Rest(e, t + 1, gg), gg, 1)
Dress(e, k, gg) == [t \in 1..Len(e) |->
  LET x == e[t]
      pi == IF k = "same" THEN [i \in 1..2 |-> IF i = x.a THEN Unit ELSE 0] ELSE x.pi
      says(v, other) == [i \in 1..2 |-> IF i = x.a THEN v ELSE other] IN
  [a |-> x.a, pi |-> pi, p |-> IF k = "same" THEN Unit ELSE Unit \div 2, r |-> x.r,
   mr |-> CASE k = "blind" -> <<0, 0>> [] OTHER -> says(x.r, Unit \div 2), mrl |-> IF k = "blind" THEN 0 ELSE x.r,
   mv |-> CASE k = "blind" -> <<0, 0>> [] OTHER -> says(Rest(e, t, gg), Unit \div 4)]]
Init == /\ g \in Gammas /\ kind \in {"same", "right", "blind"}
        /\ \E n, m \in Lens : n + m <= MaxSteps /\ \E x \in [1..n -> Bare], y \in [1..m -> Bare] : E = <<Dress(x, kind, g), Dress(y, kind, g)>>
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
S == Steps(E)
Near2(a, b) == Abs(a - b) <= 24
Avg(f(_)) == Mean([i \in 1..Len(S) |-> f(S[i])])
Logged == Mean([i \in 1..Len(E) |-> Return(E[i], g)])
R(x) == x.r
Episodic == Mean([i \in 1..Len(E) |-> Recur(E[i], 1, g)])
(* the policy that logged the data, with models that know: every estimate is the logged return *)
SamePolicy == kind = "same" => /\ Near2(Avg(Direct), Avg(R)) /\ Near2(Avg(Inverse), Avg(R)) /\ Near2(Avg(Doubly), Avg(R)) /\ Near2(Episodic, Logged)
                               /\ \A j \in {0, 1, 2, Forever} : Near2(StepReturn(E, j, g, TRUE, TRUE), Logged)
(* models that know the logged rewards leave nothing to correct *)
RightModel == kind = "right" => Near2(Avg(Doubly), Avg(Direct))
(* models that say nothing leave inverse propensities *)
BlindModel == kind = "blind" => /\ Near2(Avg(Doubly), Avg(Inverse)) /\ Near2(StepReturn(E, 0, g, TRUE, TRUE), 0)
                                /\ Near2(StepReturn(E, Forever, g, FALSE, TRUE), Mean([i \in 1..2 |-> SumSeq([t \in 1..Len(E[i]) |-> Disc(Frac(E[i][t].r, Cum(E[i], t), 4 ^ t), g, t - 1)])]))
(* weights of a step sum to one *)
Normal == \A t \in 0..Longest(E) : Near2(SumSeq([i \in 1..2 |-> W(E, i, t, TRUE, TRUE)]), Unit)
(* the estimate averages to the truth over what could have been logged: half and half here *)
Unbiased == kind = "right" => \A i \in 1..Len(S) : LET x == S[i]  d(a) == Doubly([x EXCEPT !.a = a, !.r = x.mr[a] + Unit \div 8, !.mrl = x.mr[a]]) IN
              Near2((d(1) + d(2)) \div 2, Expect(x, [a \in 1..2 |-> x.mr[a] + Unit \div 8]))
(* for the generator: how many episodes, how long; whose policy and models *)
Layouts == /\ kind \in {"same", "right", "blind", "any"} /\ g \in {0, 4, 7, 8}
           /\ \E n \in 1..7 : E \in (IF n <= 5 THEN [1..n -> 1..3] ELSE {[i \in 1..n |-> 1 + ((i * k) % 3)] : k \in 1..3})
Emit == PrintT("GEN " \o ToJson([lens |-> E, kind |-> kind, g |-> g]))
Still == FALSE /\ UNCHANGED vars
====
