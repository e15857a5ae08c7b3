---- MODULE Tables ----
(* Logged tables and the training rows queried from them.
   A logged row:  h  fingerprint of its episode, as two 16-bit limbs      seq  its place in the episode
     r   rewards of this and the following steps (one when single-step)    prob  of the logged action
     s   state as a sequence of [k, v, p] (p = 0: listed without a value)   td  time differences, one per following step
     ns  states of the following steps          m  metrics of this and the following steps
     a   action: its name, or its features      na  actions of the following steps (an unknown name / no features: the end)
     pa  names of the possible actions          pna  names of the possible actions of the following steps
   A table's settings c:  multi  0, or the number of steps a training row may span     gamma  per step
     disc  1 when actions are names   actions  their names, in order   custom  how the reward is to be derived *)
EXTENDS FixMath, FiniteSets
Keys(f) == {f[i].k : i \in 1..Len(f)}
(* columns are in ascending order of their names *)
Ascending[S \in SUBSET (0..99)] == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o Ascending[S \ {x}]
StateNames(rows) == Ascending[UNION {Keys(rows[i].s) \cup UNION {Keys(rows[i].ns[j]) : j \in 1..Len(rows[i].ns)} : i \in 1..Len(rows)}]
MetricNames(rows) == Ascending[UNION {UNION {Keys(rows[i].m[j]) : j \in 1..Len(rows[i].m)} : i \in 1..Len(rows)}]
ActionNames(rows) == Ascending[UNION {Keys(rows[i].a) \cup UNION {Keys(rows[i].na[j]) : j \in 1..Len(rows[i].na)} : i \in 1..Len(rows)}]
(* a feature map as a row of [presence, value] *)
Listed(f, k) == {i \in 1..Len(f) : f[i].k = k /\ f[i].p = 1}
Dense(f, names) == [j \in 1..Len(names) |-> IF Listed(f, names[j]) = {} THEN <<0, 0>> ELSE <<1, f[CHOOSE i \in Listed(f, names[j]) : TRUE].v>>]
(* how many steps the row spans *)
Span(c, row) == IF c.multi = 0 THEN 1 ELSE Min2(Len(row.ns), c.multi)
RECURSIVE Discounted(_, _)
Discounted(r, g) == IF r = <<>> THEN 0 ELSE r[1] + Mul(Discounted(Tail(r), g), g)
Reward(c, row) ==
  CASE c.custom.kind = "affine" -> Mul(row.r[1], c.custom.a) + c.custom.b
    [] c.custom.kind = "square" -> Mul(row.r[1], row.r[1])
    [] c.custom.kind = "positive" -> Max2(row.r[1], 0)
    [] c.custom.kind = "size" -> Len(row.r) * Unit
    [] c.custom.kind = "metric" -> (LET w == Listed(row.m[1], c.custom.a) IN IF w = {} THEN 0 ELSE row.m[1][CHOOSE i \in w : TRUE].v)
    [] OTHER -> IF c.multi = 0 THEN row.r[1] ELSE Discounted(row.r, c.gamma)
(* actions by name: the position among the known names, or one past the last *)
Place(names, a) == IF \E i \in 1..Len(names) : names[i] = a THEN (CHOOSE i \in 1..Len(names) : names[i] = a) - 1 ELSE Len(names)
Bits(names, has) == [i \in 1..Len(names) |-> IF \E j \in 1..Len(has) : has[j] = names[i] THEN 1 ELSE 0]
(* samples: a share is in tenths of a percent of all fingerprints; -1 below, 0 on it, 1 above *)
Whole == 65536
Limbs(hi, lo) == <<hi + (lo \div Whole), lo % Whole>>
Compare(h, share) ==
  LET x == Limbs(1000 * h[1], 1000 * h[2])
      y == Limbs(65535 * share, 65535 * share)
  IN IF x[1] # y[1] THEN (IF x[1] < y[1] THEN -1 ELSE 1) ELSE IF x[2] # y[2] THEN (IF x[2] < y[2] THEN -1 ELSE 1) ELSE 0
(* on the edge of a sample an episode may fall to either side, but not to both *)
Surely(h, lo, hi) == (Compare(h, lo) = 1 \/ (lo = 0 /\ Compare(h, lo) >= 0 /\ hi > 0)) /\ (Compare(h, hi) = -1 \/ (hi = 1000 /\ lo < hi))
Possibly(h, lo, hi) == Compare(h, lo) >= 0 /\ Compare(h, hi) <= 0 /\ lo < hi
====
