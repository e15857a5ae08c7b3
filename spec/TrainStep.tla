---- MODULE TrainStep ----
(* The protocol of one training step.

   A learner owns networks and one optimizer per loss.  Processing a batch is a sequence of
   micro-steps, one per optimizer and in the configured order: the k-th loss is computed on the
   networks as the earlier micro-steps left them; its gradient reaches only the k-th optimizer's
   networks; nothing else changes.  A loss may be withheld, then nothing changes.  A learner
   that does not produce exactly one loss per optimizer is refused.

   Synthetic learners: network k is a number w[k]; loss k is w[k] * (C[k][1]*w[1] + ... ) with
   integer coefficients, so that it depends on every network.  lr[k] is in sixteenths.         *)
EXTENDS FixMath
Grad(C, w, k) == SumSeq([j \in 1..Len(w) |-> IF j = k THEN 2 * C[k][k] * w[k] ELSE C[k][j] * w[j]])
Micro(C, lr, w, k) == [w EXCEPT ![k] = @ - Frac(Grad(C, w, k), lr[k], 16)]
RECURSIVE Batch(_, _, _, _, _)
(* L[k] = 1: loss k is produced; 0: withheld *)
Batch(C, lr, L, w, k) == IF k > Len(w) THEN w ELSE Batch(C, lr, L, IF L[k] = 1 THEN Micro(C, lr, w, k) ELSE w, k + 1)
Accepted(nloss, nopt) == nloss = nopt

(* the networks each real learner optimizes, one optimizer each *)
Roles(c) ==
  LET heads == IF c.heads THEN {"reward_network", "q_network_cpe"} ELSE {}
      twin == IF c.twin THEN {"q2_network"} ELSE {}
  IN CASE c.learner \in {"dqn", "qrdqn"} -> {"q_network"} \cup heads
       [] c.learner \in {"c51", "slateq"} -> {"q_network"}
       [] c.learner = "pdqn" -> {"q_network", "reward_network"}
       [] c.learner = "td3" -> {"q1_network", "actor_network"} \cup twin
       [] c.learner = "crr" -> {"q1_network", "actor_network"} \cup twin \cup heads
       [] c.learner = "sac" -> {"q1_network", "actor_network"} \cup twin \cup (IF c.value THEN {"value_network"} ELSE {}) \cup (IF c.alpha THEN {"log_alpha"} ELSE {})
Targets(c) ==
  CASE c.learner \in {"dqn", "qrdqn"} -> {"q_network_target"} \cup (IF c.heads THEN {"q_network_cpe_target"} ELSE {})
    [] c.learner \in {"c51", "slateq", "pdqn"} -> {"q_network_target"}
    [] c.learner \in {"td3", "crr"} -> {"q1_network_target", "actor_network_target"} \cup (IF c.twin THEN {"q2_network_target"} ELSE {}) \cup (IF c.heads THEN {"q_network_cpe_target"} ELSE {})
    [] c.learner = "sac" -> IF c.value THEN {"value_network_target"} ELSE {"q1_network_target"} \cup (IF c.twin THEN {"q2_network_target"} ELSE {})
(* optimizers that only act on selected steps *)
Delayed(c) == IF c.learner \in {"td3", "crr"} THEN {"actor_network"} ELSE {}
Due(c, name, i) == name \in Delayed(c) => i % c.delay = 0
====
