---- MODULE MC_SoftUpdate ----
(* Design check: a target stays between its old value and the source, rate 1 copies, rate 0 never
   moves, skipped updates change nothing, a shared parameter is always the source.  Behaviours
   (interleavings of learning, updating and skipping) are replayed on the real updater. *)
EXTENDS SoftUpdate, TLC, Json
CONSTANT MaxSteps
VARIABLES c, src, tgt, hist, last
vars == <<c, src, tgt, hist, last>>
V == {-2, 0, 3}
Init == /\ c \in [tau : {0, 1, 4, 8, 16}, shared : {<<FALSE, FALSE>>, <<FALSE, TRUE>>}]
        /\ src = <<Unit, -Unit>> /\ tgt = [i \in 1..2 |-> IF c.shared[i] THEN src[i] ELSE 0]
        /\ hist = <<>> /\ last = <<src, tgt>>
Learn(i, v) == src' = [src EXCEPT ![i] = v * Unit] /\ tgt' = [j \in 1..2 |-> IF c.shared[j] THEN src'[j] ELSE tgt[j]] /\ hist' = Append(hist, [op |-> "learn", i |-> i, v |-> v])
Update == src' = src /\ tgt' = MoveAll(c.tau, src, tgt, c.shared) /\ hist' = Append(hist, [op |-> "step", i |-> 0, v |-> 0])
Skip == UNCHANGED <<src, tgt>> /\ hist' = Append(hist, [op |-> "skip", i |-> 0, v |-> 0])
Next == Len(hist) < MaxSteps /\ last' = <<src, tgt>> /\ UNCHANGED c /\ (Update \/ Skip \/ \E i \in 1..2, v \in V : Learn(i, v))
Spec == Init /\ [][Next]_vars
Op == IF hist = <<>> THEN "" ELSE hist[Len(hist)].op
Between == Op = "step" => \A i \in 1..2 : Within(tgt[i], Min2(last[2][i], src[i]), Max2(last[2][i], src[i]), 1)
Copies == Op = "step" /\ c.tau = 16 => tgt = src
Frozen == c.tau = 0 /\ Op # "learn" => tgt = last[2]
SharedIsSource == \A i \in 1..2 : c.shared[i] => tgt[i] = src[i]
SourceKept == Op \in {"step", "skip"} => src = last[1]
Emit == Len(hist) = MaxSteps => PrintT("GEN " \o ToJson([tau |-> c.tau, shared |-> c.shared, hist |-> hist]))
====
