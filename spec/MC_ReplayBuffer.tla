--------------------------- MODULE MC_ReplayBuffer ---------------------------
(* Exhaustive check: the incrementally maintained ring offers exactly what the history says. *)
EXTENDS ReplayBuffer, TLC, Json
CONSTANTS MaxCap, MaxStack, MaxN, MaxSteps
VARIABLES c, steps, rb
vars == <<c, steps, rb>>
Cfgs == {x \in [cap : 1..MaxCap, stack : 1..MaxStack, n : 1..MaxN] : Feasible(x)}

Init == c \in Cfgs /\ steps = <<>> /\ rb = RingInit(c)
Add(term) == /\ Len(steps) < MaxSteps
             /\ steps' = Append(steps, [p |-> PosOfNext(c, steps, rb.count), term |-> term])
             /\ rb' = RingAdd(c, rb, Len(steps) + 1, term)
             /\ UNCHANGED c
Next == \E term \in BOOLEAN : Add(term)
Spec == Init /\ [][Next]_vars

Count == IF steps = <<>> THEN 0 ELSE steps[Len(steps)].p + 1
(* the ring offers exactly the steps that are safe *)
RingRefinesHistory ==
  /\ rb.count = Count
  /\ RingOffered(c, rb) = OfferedCells(c, steps, Count)
  /\ \A i \in OfferedIdx(c, steps, Count) : rb.cell[steps[i].p % c.cap] = i
(* no two offered steps share a cell *)
OneCellEach ==
  Cardinality(OfferedCells(c, steps, Count)) = Cardinality(OfferedIdx(c, steps, Count))
(* everything an offered transition needs is still in the ring *)
WindowsIntact ==
  \A i \in OfferedIdx(c, steps, Count) :
    /\ \A d \in 0..NumSteps(c, steps, i) - 1 : rb.cell[(steps[i].p + d) % c.cap] = i + d
    /\ ~Ended(c, steps, i) => rb.cell[(steps[i].p + c.n) % c.cap] = i + c.n
    /\ \A d \in 0..c.stack-1 :
         rb.cell[(steps[i].p - d) % c.cap] =
           (IF i - d >= EpStart(steps, i) THEN i - d ELSE 0)
(* every step becomes offered once complete, until it is overwritten or reserved *)
NothingLost ==
  \A i \in 1..Len(steps) :
    (Complete(c, steps, i) /\ Live(c, Count, steps[i].p)) =>
       steps[i].p % c.cap \in RingOffered(c, rb)
(* every complete behaviour is printed for replay on the real code *)
Emit == Len(steps) = MaxSteps =>
  PrintT("GEN " \o ToJson([c |-> c, terms |-> [i \in 1..Len(steps) |-> steps[i].term]]))
=============================================================================
