---- MODULE MC_QLearning ----
(* Design check of QLearning on two states, two actions, coarse values; its behaviours (option
   combinations with one- and two-row batches) drive the conformance check.                     *)
EXTENDS QLearning, TLC, Json
CONSTANT Rich
VARIABLES c, q, tq, B, done
vars == <<c, q, tq, B, done>>
S == 0..1
A == 0..1
Vals == {-Unit, 2 * Unit}
Opt == [maxq: BOOLEAN, double: BOOLEAN, discount: {"const", "time", "steps"}, loss: {"mse", "huber"}, bcq: {FALSE}]
Full(o) == [maxq |-> o.maxq, double |-> o.double, discount |-> o.discount, loss |-> o.loss, bcq |-> o.bcq,
            gamma |-> 8, lr |-> 4, tau |-> 4, S |-> 2, A |-> 2, boost |-> <<0, Unit>>, metrics |-> 1, temp |-> 1, imitator |-> <<>>, drop |-> 0]
Row == [s: {0}, a: A, s2: S, a2: A, r: {0, Unit}, nt: {0, 1}, td: {1, 3}, k: {2}, cand2: {<<0, 1>>}, mask2: {<<1, 1>>, <<1, 0>>, <<0, 1>>}, m: {<<>>}]
Tables == {<<<<0, 0>>, <<x, y>>>> : x \in Vals, y \in Vals}
Distinct == {T \in Tables : T[2][1] # T[2][2]}
Init == /\ c \in {Full(o) : o \in Opt} /\ q \in Distinct /\ tq \in Distinct /\ B = <<>> /\ done = FALSE
Grow == /\ ~done /\ Len(B) < (IF Rich THEN 2 ELSE 1) /\ \E r \in Row : B' = Append(B, r)
        /\ UNCHANGED <<c, q, tq, done>>
Step == /\ ~done /\ B # <<>> /\ done' = TRUE
        /\ LET NQ == [s \in 1..2 |-> [a \in 1..2 |-> StepQLo(c, q, tq, B, s - 1, a - 1)]]
           IN q' = NQ /\ tq' = [s \in 1..2 |-> [a \in 1..2 |-> Soft(c, NQ[s][a], tq[s][a])]]
        /\ UNCHANGED <<c, B>>
Next == Grow \/ Step
Spec == Init /\ [][Next]_vars
Set(tab, s, a, v) == [tab EXCEPT ![s + 1][a + 1] = v]
(* what must not matter does not matter *)
Insensitive ==
  ~done =>
  \A i \in 1..Len(B) :
    LET r == B[i]  base == NextValues(c, q, tq, r) IN
    /\ r.nt = 0 => base = {0}
    /\ r.nt = 1 =>
       /\ base # {}
       /\ \A a \in A : a \notin Allowed(c, r) => \A v \in {-3 * Unit, 5 * Unit} :
            NextValues(c, Set(q, r.s2, a, v), Set(tq, r.s2, a, v), r) = base
       /\ \A a \in A : \A v \in {-3 * Unit, 5 * Unit} : NextValues(c, Set(q, 1 - r.s2, a, v), Set(tq, 1 - r.s2, a, v), r) = base
       /\ ~c.maxq => base = {tq[r.s2 + 1][r.a2 + 1]}
       /\ (c.maxq /\ ~c.double) => \A x \in base : \A a \in Allowed(c, r) : x >= tq[r.s2 + 1][a + 1] - 1
       /\ (c.maxq /\ c.double) => \A x \in base : \E a \in Allowed(c, r) : x = tq[r.s2 + 1][a + 1]
(* a step moves every logged value toward its target and never past it, leaves the rest *)
Toward ==
  ~done => \A s \in S : \A a \in A :
     LET R == RowsOf(B, s, a)
         old == q[s + 1][a + 1]  new == StepQLo(c, q, tq, B, s, a)
         T == {TargetLo(c, q, tq, R[i]) : i \in 1..Len(R)} \cup {TargetHi(c, q, tq, R[i]) : i \in 1..Len(R)}
     IN /\ R = <<>> => new = old
        /\ R # <<>> => /\ new >= Min2(old, SMin(T)) - 2 /\ new <= Max2(old, SMax(T)) + 2
Emit == (~done /\ Len(B) = 1 /\ B[1].r = Unit /\ (c.maxq \/ B[1].mask2 = <<1, 1>>) /\ (~c.maxq \/ B[1].a2 = 0) /\ B # <<>>) => PrintT("GEN " \o ToJson([c |-> c, rows |-> B, q |-> q, tq |-> tq]))
====
