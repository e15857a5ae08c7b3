---- MODULE MC_PolicyGradient ----
(* Episode buffer, random minibatches without replacement, several passes: every buffered episode is
   used exactly once per pass and the buffer is empty after an update.  The credit of an episode
   does not depend on any other episode of the buffer. *)
EXTENDS PolicyGradient, TLC
CONSTANTS Freq, Epochs, B, N
VARIABLES buf, rem, pass, used, seen
vars == <<buf, rem, pass, used, seen>>
Init == buf = {} /\ rem = {} /\ pass = 0 /\ used = [i \in 1..N |-> 0] /\ seen = 0
Collect == pass = 0 /\ seen < N /\ seen' = seen + 1 /\ buf' = buf \cup {seen + 1}
           /\ (IF Cardinality(buf') = Freq THEN pass' = 1 /\ rem' = buf' ELSE UNCHANGED <<pass, rem>>) /\ UNCHANGED used
Draw == pass > 0 /\ \E X \in Draws(rem, B) :
          /\ used' = [i \in 1..N |-> IF i \in X THEN used[i] + 1 ELSE used[i]]
          /\ IF X # rem THEN rem' = rem \ X /\ UNCHANGED <<buf, pass>>
             ELSE IF pass < Epochs THEN rem' = buf /\ pass' = pass + 1 /\ UNCHANGED buf
             ELSE rem' = {} /\ buf' = {} /\ pass' = 0
          /\ UNCHANGED seen
Next == Collect \/ Draw
Spec == Init /\ [][Next]_vars
EachOncePerPass == /\ \A i \in 1..N : used[i] <= Epochs
                   /\ pass = 0 => \A i \in 1..seen : used[i] = IF i \in buf THEN 0 ELSE Epochs
                   /\ pass = 0 => buf = (IF seen % Freq = 0 THEN {} ELSE ((seen - (seen % Freq)) + 1)..seen)
(* reward-to-go obeys its recursion; later rewards never reach earlier... only earlier steps *)
Rs == {0 - Unit, Unit \div 2, 2 * Unit}
ASSUME \A a \in Rs, b \in Rs, d \in Rs : \A g \in {0, 8, 16} :
  LET R == [t \in 1..3 |-> RetFrom(<<a, b, d>>, g, t)] IN R[3] = d /\ R[2] = b + Frac(d, g, 16) /\ R[1] = a + Frac(R[2], g, 16)
====
