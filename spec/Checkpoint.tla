----------------------------- MODULE Checkpoint -----------------------------
(* Checkpoint directory of a replay buffer: saving iteration i writes all its files and removes
   those of iteration i - Keep.  dir maps an iteration to the saved buffer state.            *)
EXTENDS Integers, Sequences, FiniteSets
Keep == 4
Iters(dir) == DOMAIN dir
SaveTo(dir, i, s) == [k \in ((DOMAIN dir) \cup {i}) \ {i - Keep} |-> IF k = i THEN s ELSE dir[k]]
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
=============================================================================
