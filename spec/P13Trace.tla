---- MODULE P13Trace ----
(* direct use of an updater: events build, learn, step, skip; training runs: init, set, opt, end *)
EXTENDS SoftUpdate, TLC, Json, IOUtils
VARIABLES t, l, st, bad
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
Start(c) == [src |-> <<>>, tgt |-> <<>>, moved |-> 0, after |-> 0, live |-> FALSE, t0 |-> <<>>]
Apply(c, s, e) ==
  CASE e.ev \in {"build", "init", "set"} -> [s EXCEPT !.src = e.src, !.tgt = e.tgt, !.moved = 0, !.after = 0, !.live = e.exc = "", !.t0 = e.tgt]
    [] e.ev = "opt" -> [s EXCEPT !.src = e.src, !.tgt = e.tgt, !.moved = @ + (IF e.soft /\ e.tgt # s.tgt THEN 1 ELSE 0),
                                 !.after = IF e.soft THEN 0 ELSE @ + (IF e.src # s.src THEN 1 ELSE 0)]
    [] e.ev = "end" -> [s EXCEPT !.moved = 0, !.after = 0, !.src = e.src, !.tgt = e.tgt, !.t0 = e.tgt]
    [] OTHER -> [s EXCEPT !.src = e.src, !.tgt = e.tgt]
Tol == 3
NearSeq(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : Near(x[i], y[i], Tol)
Due(c, i) == i % c.delay = 0
Verdict(c, s, e) ==
  CASE e.ev = "build" -> IF (e.exc = "") # (RateOk(c.tau) /\ ShapesOk(c.tshapes, c.sshapes))
                         THEN (IF e.exc = "" THEN "an invalid rate or network pair was accepted" ELSE "a valid updater was refused") ELSE ""
    [] e.exc # "" -> "an operation failed"
    [] e.ev = "learn" -> IF \E i \in 1..Len(s.tgt) : ~c.shared[i] /\ e.tgt[i] # s.tgt[i] THEN "target moved without an update" ELSE ""
    [] e.ev = "step" -> IF e.src # s.src THEN "the source moved" ELSE
                        IF ~NearSeq(e.tgt, MoveAll(c.tau, s.src, s.tgt, c.shared)) THEN "target did not move by the rate" ELSE ""
    [] e.ev = "skip" -> IF e.src # s.src \/ e.tgt # s.tgt THEN "a skipped update changed parameters" ELSE ""
    [] e.ev = "init" -> IF e.src # e.tgt THEN "target does not start equal to its source" ELSE ""
    [] e.ev = "set" -> ""
    [] e.ev = "opt" -> IF ~e.soft THEN (IF e.tgt # s.tgt THEN "target moved during a learning update" ELSE "")
                       ELSE IF e.src # s.src THEN "the source moved"
                       ELSE IF e.tgt = s.tgt THEN (IF Due(c, e.i) /\ ~NearSeq(e.tgt, MoveAll(c.tau, s.src, s.tgt, c.shared)) THEN "target did not move by the rate" ELSE "")
                       ELSE IF ~Due(c, e.i) THEN "target moved on a step the delay skips"
                       ELSE IF s.moved > 0 THEN "target moved twice in one step"
                       ELSE IF ~NearSeq(e.tgt, MoveAll(c.tau, s.src, s.tgt, c.shared)) THEN "target did not move by the rate" ELSE ""
    [] e.ev = "end" -> IF e.src # s.src \/ e.tgt # s.tgt THEN "parameters changed outside the updates of the step"
                       ELSE IF Due(c, e.i) /\ ~NearSeq(e.tgt, MoveAll(c.tau, e.src, s.t0, c.shared)) THEN "target did not move once by the rate in this step"
                       ELSE IF s.after > 0 /\ Due(c, e.i) THEN "a learning update came after the target moved" ELSE ""
    [] OTHER -> "unknown event"
INSTANCE TraceBase
====
