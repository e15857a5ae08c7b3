---- MODULE MC_Planning ----
(* Worlds of two states and two actions, every plan tried once (in order): choosing by rollouts is what the
   planner does; the best sequence is what dynamic programming finds.                                     *)
EXTENDS Planning, TLC, Json
CONSTANT Rewards
VARIABLES w, c, st, i
vars == <<w, c, st, i>>
Cells == [r4 : Rewards, next : {0, 1}, done : BOOLEAN]
Gammas == {2, 4}
(* w[s + 1][a + 1] *)
Init == /\ w \in {<<<<x, y>>, <<z, v>>>> : x \in Cells, y \in Cells, z \in Cells, v \in Cells}
        /\ \E g \in Gammas, tm \in BOOLEAN : c = [disc |-> TRUE, H |-> 2, pop |-> 4, ens |-> 1, iters |-> 1, elites |-> 1, n |-> 2, S0 |-> 0, term |-> tm, gamma |-> (g * Unit) \div 4, lo |-> <<>>, hi |-> <<>>]
        /\ st = Begin(c) /\ i = 0
Plans == <<<<0, 0>>, <<0, 1>>, <<1, 0>>, <<1, 1>>>>
Here == CHOOSE s \in st.at : TRUE
Act == Plans[Len(st.sols) + 1][st.step]
Reward(s, a) == (w[s + 1][a + 1].r4 * Unit) \div 4
Next == ~Full(c, st) /\ LET x == w[Here + 1][Act + 1] IN
   st' = Take(c, st, [m |-> 1, s |-> Here, a |-> Act, r |-> Reward(Here, Act), done |-> x.done, nexts |-> {x.next}]) /\ i' = i + 1 /\ UNCHANGED <<w, c>>
Still == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Value(p) == LET x == w[1][p[1] + 1] IN Reward(0, p[1]) + (IF c.term /\ x.done THEN 0 ELSE Mul(c.gamma, Reward(x.next, p[2])))
RolloutsRight == Full(c, st) => \A k \in 1..4 : st.sols[k].score = Value(Plans[k]) /\ st.sols[k].plan[1] = Plans[k][1]
BestFirst(a) == SMax({st.sols[k].score : k \in {j \in 1..4 : st.sols[j].plan[1] = a}})
Dp(a) == LET x == w[1][a + 1] IN Reward(0, a) + (IF c.term /\ x.done THEN 0 ELSE Mul(c.gamma, SMax({Reward(x.next, b) : b \in 0..1})))
EnumerationIsDp == Full(c, st) => \A a \in 0..1 : BestFirst(a) = Dp(a)
SomeBest == Full(c, st) => \E a \in 0..1 : Best(c, st, a, 0)
Short == i <= 8 /\ (Full(c, st) => i >= 4)
Done == <>Full(c, st)
Emit == (i = 0) => PrintT("GEN " \o ToJson([w |-> w, term |-> c.term, gamma4 |-> (c.gamma * 4) \div Unit]))
====
