---- MODULE TrainingRun ----
(* The life of one training job across processes.

   What survives a process is the last checkpoint: how many epochs are done, the epoch count the
   job is to reach (target), whether the run that wrote it had stopped cleanly.  A run that starts
   from a clean state, or from one whose epochs were all done, is asked for n more epochs; one that
   starts from an interrupted run finishes what that run had been asked for.  Every completed epoch writes a checkpoint (not clean); the
   clean mark is set when the finished run is saved.                                          *)
EXTENDS Integers, Sequences
Fresh == [done |-> 0, target |-> 0, clean |-> TRUE]
Begin(d, n) == [done |-> d.done, target |-> IF d.clean \/ d.done >= d.target THEN d.target + n ELSE d.target, clean |-> FALSE]
EpochDone(r) == [r EXCEPT !.done = @ + 1]
Finished(r) == r.done >= r.target
Saved(r) == [r EXCEPT !.clean = TRUE]

(* the parts that legacy learners hand over when another training starts from them *)
Components(k, base) ==
  CASE k \in {"reinforce", "ppo"} -> {"scorer"} \cup (IF base THEN {"value_net"} ELSE {})
    [] k = "reward" -> {"reward_net"}
    [] k = "mdnrnn" -> {"memory_network"}
    [] k = "seq2reward" -> {"seq2reward_network"}
    [] k = "compress" -> {}
    [] k = "s2s" -> {"seq2slate_net"} \cup (IF base THEN {"baseline_net"} ELSE {})
    [] k \in {"s2s_sim", "s2s_dr", "s2s_tf", "s2s_attn"} -> {"seq2slate_net"}
====
