---- MODULE MC_TrainStep ----
(* Explicit micro-step machine with a gradient store, checked against the one-line batch
   semantics: gradients never survive into another optimizer's update.  Its terminal behaviours
   (learner shapes and schedules of withheld losses) are replayed on the real training loop. *)
EXTENDS TrainStep, TLC, Json
CONSTANTS MaxK, MaxB
VARIABLES C, lr, L, w, grad, k, b, w0, refused
vars == <<C, lr, L, w, grad, k, b, w0, refused>>
Ks == 1..MaxK
Coef(n) == {[i \in 1..n |-> [j \in 1..n |-> ((i * x + j * y) % 5) - 2]] : x \in 1..2, y \in 1..3}
(* L[b][k]: 1 produced, 0 withheld; a row of another length is a learner that does not match *)
Plans(n) == UNION {[1..MaxB -> [1..n -> {0, 1}]]} \cup {[x \in 1..MaxB |-> [y \in 1..m |-> 1]] : m \in ({n - 1, n + 1} \ {0})}
Init == \E n \in Ks : /\ C \in Coef(n) /\ L \in Plans(n)
          /\ lr = [i \in 1..n |-> IF i % 2 = 1 THEN 4 ELSE 2]
          /\ w = [i \in 1..n |-> ((i % 3) - 1) * Unit + Unit \div 2]
          /\ grad = [i \in 1..n |-> 0] /\ k = 1 /\ b = 1 /\ w0 = w /\ refused = FALSE
N == Len(w)
Refuse == /\ Len(L[b]) # N /\ k = 1 /\ ~refused /\ refused' = TRUE /\ UNCHANGED <<C, lr, L, w, grad, k, b, w0>>
(* backward only reaches the networks of the active optimizer *)
Step == /\ ~refused /\ b <= MaxB /\ Len(L[b]) = N /\ k <= N
        /\ LET g == IF L[b][k] = 1 THEN [grad EXCEPT ![k] = Grad(C, w, k)] ELSE grad
           IN w' = (IF L[b][k] = 1 THEN [w EXCEPT ![k] = @ - Frac(g[k], lr[k], 16)] ELSE w)
        /\ grad' = [i \in 1..N |-> 0]
        /\ IF k = N THEN k' = 1 /\ b' = b + 1 /\ w0' = w' ELSE k' = k + 1 /\ UNCHANGED <<b, w0>>
        /\ UNCHANGED <<C, lr, L, refused>>
Next == (b <= MaxB /\ Refuse) \/ Step
Spec == Init /\ [][Next]_vars
OneAtATime == [][\A i \in 1..N : w'[i] # w[i] => i = k]_vars
Semantics == [][b' # b => w' = Batch(C, lr, L[b], w0, 1)]_vars
Done == b > MaxB \/ refused
Emit == Done => PrintT("GEN " \o ToJson([C |-> C, lr |-> lr, L |-> L]))
====
