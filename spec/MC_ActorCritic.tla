---- MODULE MC_ActorCritic ----
(* Design check of the delayed actor-critic schedule (deterministic policy): pessimism of the
   target, no bootstrapping after a terminal step, policy and targets move exactly on selected
   steps.  Behaviours (option combination + schedule of steps) are replayed on the real learners. *)
EXTENDS ActorCritic, TLC, Json
CONSTANT MaxSteps
VARIABLES c, s, i, sched, last
vars == <<c, s, i, sched, last>>
Opt == [twin: BOOLEAN, delay: 1..3, noise: BOOLEAN]
Cfg(o) == [S |-> 2, gamma |-> 8, tau |-> 8, lrq |-> 4, lra |-> 4, clip |-> Unit \div 4, twin |-> o.twin, delay |-> o.delay, noise |-> o.noise]
K(w1, w2, v1, v2) == [w |-> <<w1 * Unit, w2 * Unit>>, v |-> <<(v1 * Unit) \div 2, (v2 * Unit) \div 2>>]
S0 == [k1 |-> K(1, -1, 1, 2), k2 |-> K(0, 1, -1, 1), k1t |-> K(2, -1, 1, 1), k2t |-> K(1, 1, -2, 1), mu |-> <<0, Unit \div 2>>, mut |-> <<Unit \div 4, -Unit \div 2>>]
Row == [s: {0}, s2: {1}, a: {Unit \div 2}, r: {Unit}, nt: {0, 1}] \cup [s: {1}, s2: {0}, a: {-Unit \div 2}, r: {0}, nt: {1}]
Init == c \in {Cfg(o) : o \in Opt} /\ s = S0 /\ i = 0 /\ sched = <<>> /\ last = S0
StepM == /\ i < MaxSteps
         /\ \E r \in Row : \E y \in Td3Targets(c, s, r) :
              LET B == <<r>>
                  k1 == StepCritic(c, s.k1, B, <<y>>)
                  k2 == IF c.twin THEN StepCritic(c, s.k2, B, <<y>>) ELSE s.k2
                  mu == IF i % c.delay = 0 THEN Td3Actor(c, s.mu, k1, B) ELSE s.mu
                  soft(x, y2) == [j \in 1..2 |-> SoftStep(c, x[j], y2[j])]
              IN /\ s' = IF i % c.delay = 0
                         THEN [k1 |-> k1, k2 |-> k2, mu |-> mu, mut |-> soft(mu, s.mut),
                               k1t |-> [w |-> soft(k1.w, s.k1t.w), v |-> soft(k1.v, s.k1t.v)],
                               k2t |-> IF c.twin THEN [w |-> soft(k2.w, s.k2t.w), v |-> soft(k2.v, s.k2t.v)] ELSE s.k2t]
                         ELSE [s EXCEPT !.k1 = k1, !.k2 = k2]
                 /\ sched' = Append(sched, r)
         /\ last' = s /\ i' = i + 1 /\ UNCHANGED c
Next == StepM
Spec == Init /\ [][Next]_vars
Pessimism == \A r \in Row : \A x \in Td3Next(c, s.k1t, s.k2t, s.mut, r) :
   /\ (r.nt = 0 => x = 0)
   /\ (r.nt = 1 => \E y \in Td3Next([c EXCEPT !.twin = FALSE], s.k1t, s.k2t, s.mut, r) : x <= y)
Delay == i > 0 => ((i - 1) % c.delay # 0 => s.mu = last.mu /\ s.mut = last.mut /\ s.k1t = last.k1t /\ s.k2t = last.k2t)
InRange == \A x \in 1..2 : Abs(s.k1.w[x]) < 8 * Unit /\ Abs(s.mu[x]) < 8 * Unit
Emit == i = MaxSteps => PrintT("GEN " \o ToJson([twin |-> c.twin, delay |-> c.delay, noise |-> c.noise, sched |-> sched]))
====
