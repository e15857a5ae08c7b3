---- MODULE MC_Reporting ----
(* every history of reported values (of one metric) and epoch ends, for each interval *)
EXTENDS Reporting, TLC, Json
CONSTANTS N, KMax
VARIABLES k, o, h, fed, ends
vars == <<k, o, h, fed, ends>>
Init == k \in 0..KMax /\ o = Fresh /\ h = <<>> /\ fed = 0 /\ ends = {0}
Value == Len(h) < N /\ o' = Feed(o, k, fed + 1) /\ fed' = fed + 1 /\ h' = Append(h, 1) /\ UNCHANGED <<k, ends>>
End == Len(h) < N /\ o' = Close(o) /\ h' = Append(h, 0) /\ ends' = ends \cup {fed} /\ UNCHANGED <<k, fed>>
Next == Value \/ End
Conserved == Cat(o.win) \o o.buf = [i \in 1..fed |-> i]                        \* nothing lost, repeated or reordered
NeverEmpty == \A i \in 1..Len(o.win) : Len(o.win[i]) > 0
Bounded == k > 0 => Len(o.buf) < k /\ \A i \in 1..Len(o.win) : Len(o.win[i]) <= k
(* a window never spans an epoch end, and only an epoch end closes a short window *)
WithinEpoch == \A i \in 1..Len(o.win) : LET w == o.win[i] IN
                 /\ \A e \in ends : ~(w[1] <= e /\ e < w[Len(w)])
                 /\ (k = 0 \/ Len(w) < k) => w[Len(w)] \in ends
                 /\ Len(w) = k => LET b == CHOOSE e \in ends : e < w[1] /\ \A x \in ends : x < w[1] => x <= e IN (w[Len(w)] - b) % k = 0
Emit == Len(h) = N => PrintT("GEN " \o ToJson([k |-> k, h |-> h]))
====
