---- MODULE MC_Summaries ----
(* every sequence of entering and leaving contexts (two writers, or none), writing and stepping *)
EXTENDS Summaries, TLC, Json
CONSTANTS N, Depth
VARIABLES s, h, log
Init == s = Clean /\ h = <<>> /\ log = <<>>
In(w) == Len(h) < N /\ Len(s.frames) < Depth /\ s' = Enter(s, w) /\ h' = Append(h, "in" \o ToString(w)) /\ UNCHANGED log
Out(x) == Len(h) < N /\ Len(s.frames) > 0 /\ s' = Leave(s) /\ h' = Append(h, x) /\ UNCHANGED log
Write == Len(h) < N /\ h' = Append(h, "write") /\ log' = (IF Target(s) = 0 THEN log ELSE Append(log, <<Target(s), s.step>>)) /\ UNCHANGED s
Step == Len(h) < N /\ s.step < 2 /\ s' = [s EXCEPT !.step = @ + 1] /\ h' = Append(h, "step") /\ UNCHANGED log
Next == (\E w \in 0..2 : In(w)) \/ Out("out") \/ Out("err") \/ Write \/ Step
(* the active writers are exactly those of the contexts not yet left, innermost last *)
Active == s.stack = SelectSeq(s.frames, LAMBDA w : w # 0)
(* leaving everything restores silence *)
Silent == s.frames = <<>> => Target(s) = 0
Steps == \A i \in 1..Len(log) : log[i][2] <= s.step /\ (i > 1 => log[i - 1][2] <= log[i][2])
Writes == Cardinality({i \in 1..Len(h) : h[i] = "write"})
Emit == (Len(h) = N /\ Writes >= 2 /\ h[N] = "write") => PrintT("GEN " \o ToJson([h |-> h]))
====
