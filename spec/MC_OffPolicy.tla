---- MODULE MC_OffPolicy ----
(* Small logs, small tables: what the estimators must agree on whatever was logged. *)
EXTENDS OffPolicy, Json
CONSTANTS Part, Rewards, Deep
SomeRewards == {-(Unit \div 2), Unit}
MoreRewards == {-(Unit \div 2), 0, Unit}
VARIABLE x
Dist == {<<Unit, 0>>, <<Unit \div 2, Unit \div 2>>, <<Unit \div 4, 3 * (Unit \div 4)>>}
Q4(a, b) == a * b
C0 == [lo |-> 0, hi |-> 16 * Unit]
Sample == {[a |-> a, r |-> r, lp |-> lp, tp |-> tp, q |-> <<q1, q2>>, qa |-> IF a = 1 THEN q1 ELSE q2] : a \in 1..2, r \in Rewards, lp \in Dist \ {<<Unit, 0>>}, tp \in Dist, q1 \in Rewards, q2 \in Rewards}
Pol == {<<Unit, 0>>, <<Unit \div 2, Unit \div 2>>}
Step == {[s |-> s, a |-> a, p |-> Unit \div 2, r |-> r] : s \in 1..2, a \in 1..2, r \in Rewards}
Eps == UNION {[1..n -> Step] : n \in (IF Deep THEN 1..3 ELSE 1..2)}
Outcomes == {<<[n |-> 1, p |-> Unit, r |-> Unit]>>, <<[n |-> 3, p |-> Unit, r |-> 0]>>, <<[n |-> 2, p |-> Unit \div 2, r |-> Unit], [n |-> 3, p |-> Unit \div 2, r |-> -Unit]>>}
Table == [1..2 -> [1..2 -> Outcomes]]
Init == CASE Part = "bandit" -> x \in Sample
          [] Part = "episodes" -> x \in [e : Eps, f : {<<[s |-> 1, a |-> 2, p |-> Unit \div 2, r |-> Unit]>>, <<[s |-> 1, a |-> 1, p |-> Unit, r |-> 0], [s |-> 2, a |-> 1, p |-> Unit \div 2, r |-> Unit]>>}, pi : [1..2 -> Pol], g : {4, 8}]
          [] Part = "tables" -> x \in [P : Table, pi : [1..2 -> Pol], g : {4, 6}]
          [] OTHER -> x = 0
Next == FALSE /\ UNCHANGED x
Spec == Init /\ [][Next]_x
Close(a, b) == Abs(a - b) <= 12
(* the same decision as if the logger had drawn action a, rewards being what m says *)
As(a, m) == [x EXCEPT !.a = a, !.r = m[a], !.qa = x.q[a]]
Avg(f(_), m) == SumSeq([a \in 1..2 |-> Mul(f(As(a, m)), x.lp[a])])
Cutoffs == {0, Unit \div 4, Unit, 2 * Unit, 16 * Unit}
M0 == <<Unit \div 8, -Unit>>
Bandits == Part = "bandit" =>
  LET truth == SumSeq([k \in 1..2 |-> Mul(M0[k], x.tp[k])]) IN
  /\ Close(Avg(LAMBDA y : Inverse(y, C0), M0), truth)                      \* unbiased
  /\ Close(Avg(LAMBDA y : Doubly(y, C0), M0), truth)
  /\ Close(Switch(x, C0, 16 * Unit), Inverse(x, C0)) /\ Close(SwitchDR(x, C0, 16 * Unit), Doubly(x, C0))   \* the two extremes
  /\ Close(Switch(x, C0, -1), Direct(x)) /\ Close(SwitchDR(x, C0, -1), Direct(x))
  /\ \A th \in Cutoffs : /\ Close(Avg(LAMBDA y : SwitchDR(y, C0, th), x.q), Direct(x))      \* a right model: nothing to correct, wherever one switches
                         /\ Close(Avg(LAMBDA y : Switch(y, C0, th), x.q), Direct(x))
  /\ x.tp = x.lp => Close(Inverse(x, C0), x.r)
E2 == <<x.e, x.f>>
Own2 == [i \in 1..2 |-> [t \in 1..Len(E2[i]) |-> [E2[i][t] EXCEPT !.p = x.pi[E2[i][t].s][E2[i][t].a]]]]
Con(w) == [weighted |-> w, lo |-> 0, hi |-> 16 * Unit, g |-> x.g, pi |-> x.pi]
Zero == <<0, 0>>
ZQ == <<<<0, 0>>, <<0, 0>>>>
Episodes == Part = "episodes" =>
  /\ \A w \in BOOLEAN : Close(Correct(E2, Con(w), Zero, ZQ), Sampling(E2, Con(w)))          \* a model that says nothing
  /\ (Len(x.e) = Len(x.f) /\ \A i \in 1..2, t \in 1..Len(x.e) : Own2[i][t].p # 0) => \A w \in BOOLEAN : Close(Sampling(Own2, Con(w)), Logged(Own2, x.g))   \* the logging policy itself
  /\ \A t \in 1..Longest(E2) : LET z == SumSeq([i \in 1..2 |-> W(E2, i, t, Con(TRUE))]) IN z = 0 \/ Close(z, Unit)
  (* visits: once never counts more than all, and exactly once per episode that comes by *)
  /\ \A s \in 1..2 : LET key(y) == y.s IN
       /\ Tally(x.e, key, s, TRUE, x.g)[2] = IF \E t \in 1..Len(x.e) : x.e[t].s = s THEN 1 ELSE 0
       /\ Tally(x.e, key, s, TRUE, x.g)[2] <= Tally(x.e, key, s, FALSE, x.g)[2]
       /\ x.e[1].s = s => Close(Tally(x.e, key, s, TRUE, x.g)[1], Return(x.e, x.g))
Tables == Part = "tables" =>
  LET V == TLCEval(Sweep(x.P, x.pi, x.g, <<0, 0>>, 45)) IN
  /\ \A s \in 1..2 : Abs(V[s] - StateValue(x.P, V, x.pi, x.g, s)) <= 4                      \* sweeping settles
  /\ \A s \in 1..2 : V[s] <= 8 * Unit /\ \E a \in 1..2 : ActionValue(x.P, V, x.g, s, a) >= V[s] - 4
(* for the generator *)
Kinds == x \in [what : {"dm", "ips", "wips", "dr", "switch", "switchdr"}, n : {1, 2, 3, 5}, A : 1..3, clamp : {"none", "top", "both"}, c : {0, 1, 3, 5}, rmax : BOOLEAN, none : BOOLEAN]
Useful == (x.what \notin {"switch", "switchdr"} => x.c = 0 /\ x.rmax) /\ (x.what \in {"dm"} => x.clamp = "none") /\ (x.what \in {"switch", "switchdr"} => ~x.none)
Seqs == x \in [what : {"is", "wis", "dr", "wdr", "dm"}, lens : UNION {[1..n -> 1..3] : n \in 1..3}, g : {4, 8}, clamp : BOOLEAN, gaps : BOOLEAN]
EmitBandit == Useful => PrintT("GEN " \o ToJson(x))
EmitSeq == PrintT("GEN " \o ToJson(x))
Still == FALSE /\ UNCHANGED x
====
