---------------------------- MODULE ReplayBuffer ----------------------------
(* The experience ring, at two levels.

   History level: the sequence of inserted steps, each with the absolute position it was
   written to; what a user may rely on is defined here (Offered, NStep, Stack ...).
   Ring level: the cells, the write cursor and the incrementally maintained validity map,
   shaped like reagent/replay_memory/circular_replay_buffer.py.  MC_ReplayBuffer checks that
   the ring refines the history for every sequence of insertions within bounds.

   A configuration c has fields cap (capacity), stack (frames stacked), n (look-ahead).     *)
EXTENDS Integers, Sequences, FiniteSets

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

Feasible(c) == c.cap >= c.n + c.stack

-----------------------------------------------------------------------------
(* History level.  A step is a record with at least [p, term]; count = cells written so far. *)

NewEpisode(steps) == steps = <<>> \/ steps[Len(steps)].term
PosOfNext(c, steps, count) == IF NewEpisode(steps) THEN count + c.stack - 1 ELSE count
CountAfter(c, steps, count) == PosOfNext(c, steps, count) + 1

(* index in steps of the first terminal at or after i, or 0 *)
RECURSIVE FirstTerm(_, _, _)
FirstTerm(steps, i, last) ==
  IF i > last \/ i > Len(steps) THEN 0
  ELSE IF steps[i].term THEN i ELSE FirstTerm(steps, i + 1, last)

WinTerm(c, steps, i) == FirstTerm(steps, i, i + c.n - 1)
Ended(c, steps, i) == WinTerm(c, steps, i) # 0
NumSteps(c, steps, i) == IF Ended(c, steps, i) THEN WinTerm(c, steps, i) - i + 1 ELSE c.n

(* whole look-ahead inserted: the episode ended inside it, or the step after it exists *)
Complete(c, steps, i) == Ended(c, steps, i) \/ i + c.n <= Len(steps)

(* neither the step nor its history is overwritten, or reserved for the padding that the next
   episode may write *)
Live(c, count, p) == p >= count - c.cap + c.stack - 1

OfferedIdx(c, steps, count) ==
  {i \in 1..Len(steps) : Live(c, count, steps[i].p) /\ Complete(c, steps, i)}

OfferedCells(c, steps, count) == {steps[i].p % c.cap : i \in OfferedIdx(c, steps, count)}

(* the step an offered cell holds *)
StepAt(c, steps, count, cell) ==
  CHOOSE i \in OfferedIdx(c, steps, count) : steps[i].p % c.cap = cell

(* first step of the episode of step i *)
RECURSIVE EpStart(_, _)
EpStart(steps, i) == IF i = 1 \/ steps[i-1].term THEN i ELSE EpStart(steps, i - 1)

-----------------------------------------------------------------------------
(* Ring level. *)
RingInit(c) == [cell |-> [i \in 0..c.cap-1 |-> 0], valid |-> [i \in 0..c.cap-1 |-> FALSE],
                count |-> 0, inep |-> 0, last |-> TRUE]
(* cell content: 0 = nothing or padding, k = k-th inserted step *)

RECURSIVE Pads(_, _, _)
Pads(c, rb, k) ==
  IF k = 0 THEN rb
  ELSE Pads(c, [rb EXCEPT !.cell[rb.count % c.cap] = 0, !.count = @ + 1], k - 1)

RingAdd(c, rb0, k, term) ==
  LET new == rb0.last
      rb1 == IF new THEN [Pads(c, rb0, c.stack - 1) EXCEPT !.inep = 0] ELSE rb0
      cur == rb1.count % c.cap
      v1  == [rb1.valid EXCEPT ![cur] = FALSE]
      v2  == IF rb1.inep >= c.n THEN [v1 EXCEPT ![(cur - c.n) % c.cap] = TRUE] ELSE v1
      cnt == rb1.count + 1
      v3  == [i \in 0..c.cap-1 |->
                IF \E d \in 0..c.stack-2 : i = (cnt + d) % c.cap THEN FALSE ELSE v2[i]]
      nb  == Min2(rb1.inep + 1, c.n)
      v4  == IF term THEN [i \in 0..c.cap-1 |->
                             IF \E d \in 0..nb-1 : i = (cur - d) % c.cap THEN TRUE ELSE v3[i]]
             ELSE v3
  IN [cell |-> [rb1.cell EXCEPT ![cur] = k], valid |-> v4, count |-> cnt,
      inep |-> rb1.inep + 1, last |-> term]

RingOffered(c, rb) == {i \in 0..c.cap-1 : rb.valid[i]}
=============================================================================
