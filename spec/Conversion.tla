----------------------------- MODULE Conversion -----------------------------
(* Recorded experience rows -> rows of a training batch.  Numbers are fixed point integers. *)
EXTENDS Integers, Sequences

OneHot(n, a) == [i \in 1..n |-> IF i = a + 1 THEN 1 ELSE 0]
Zeros(n) == [i \in 1..n |-> 0]
(* affine map of a value from [lo, hi] to [nlo, nhi], all scaled alike; exact when divisible *)
Rescale(v, lo, hi, nlo, nhi) == ((v - lo) * (nhi - nlo)) \div (hi - lo) + nlo

(* r: [state, action, next_state, next_action, reward, terminal, prob, mask, next_mask] *)
Discrete(n, r) ==
  [state |-> r.state, next_state |-> r.next_state, reward |-> r.reward,
   not_terminal |-> IF r.terminal THEN 0 ELSE 1,
   action |-> OneHot(n, r.action),
   next_action |-> IF r.terminal THEN Zeros(n) ELSE OneHot(n, r.next_action),
   mask |-> IF r.mask = <<>> THEN [i \in 1..n |-> 1] ELSE r.mask,
   next_mask |-> IF r.next_mask = <<>> THEN [i \in 1..n |-> 1] ELSE r.next_mask,
   prob |-> r.prob]
(* unit = fixed point 1; lo, hi the environment's range; the model's range is [-1, 1] *)
Continuous(unit, lo, hi, r) ==
  [state |-> r.state, next_state |-> r.next_state, reward |-> r.reward,
   not_terminal |-> IF r.terminal THEN 0 ELSE 1,
   action |-> [i \in 1..Len(lo) |-> Rescale(r.action[i], lo[i], hi[i], -unit, unit)],
   next_action |-> IF r.terminal THEN Zeros(Len(lo))
                   ELSE [i \in 1..Len(lo) |-> Rescale(r.next_action[i], lo[i], hi[i], -unit, unit)],
   prob |-> r.prob]
(* a slate with one more slot for "nothing chosen": its item index is the number of slots *)
Slate(r) ==
  LET k == Len(r.action)
      none == \A i \in 1..Len(r.click) : r.click[i] = 0
  IN [state |-> r.state, next_state |-> r.next_state, docs |-> r.docs, next_docs |-> r.next_docs,
      value |-> r.value, next_value |-> r.next_value,
      action |-> Append(r.action, k), next_action |-> Append(r.next_action, k),
      reward |-> Append(r.watch, 0), reward_mask |-> Append(r.click, IF none THEN 1 ELSE 0),
      not_terminal |-> IF r.terminal THEN 0 ELSE 1]
(* sequence rows: frame f of row b; only the last frame can be terminal *)
MemNotTerminal(frames, f, r) == IF f < frames THEN 1 ELSE IF r.terminal THEN 0 ELSE 1
=============================================================================
