---- MODULE P14Trace ----
EXTENDS TrainStep, FiniteSets, TLC, Json, IOUtils
VARIABLES t, l, st, bad
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
Start(c) == [w |-> IF c.kind = "syn" THEN c.w ELSE <<>>, w0 |-> IF c.kind = "syn" THEN c.w ELSE <<>>, seen |-> {}, frozen |-> TRUE]
ToSet(q) == {q[i] : i \in 1..Len(q)}
Apply(c, s, e) ==
  CASE e.ev = "micro" -> [s EXCEPT !.w = e.w]
    [] e.ev = "batch" -> [s EXCEPT !.w = e.w, !.w0 = e.w]
    [] e.ev = "opt" -> [s EXCEPT !.seen = @ \cup ToSet(e.own)]
    [] e.ev = "end" -> [s EXCEPT !.seen = {}]
    [] OTHER -> s
Tol == 6
NearSeq(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : Near(x[i], y[i], Tol)
Ok(c) == \A i \in 1..Len(c.L) : Accepted(Len(c.L[i]), Len(c.w))
Syn(c, s, e) ==
  CASE e.ev = "fit" -> IF (e.exc = "") # Ok(c) THEN (IF e.exc = "" THEN "a learner whose losses and optimizers do not match was accepted" ELSE "a well-formed learner was refused")
                       ELSE IF Ok(c) /\ e.batches # Len(c.L) THEN "batches were not all processed" ELSE ""
    [] ~Ok(c) -> ""
    [] e.ev = "micro" ->
         IF \E i \in 1..Len(s.w) : i # e.k /\ e.w[i] # s.w[i] THEN "a network changed during another optimizer's update"
         ELSE IF c.L[e.b][e.k] = 0 THEN (IF e.w # s.w THEN "a network changed although its loss was withheld" ELSE "")
         ELSE IF ~NearSeq(e.w, Micro(c.C, c.lr, s.w, e.k)) THEN "a network did not move by the gradient of its own loss" ELSE ""
    [] e.ev = "batch" -> IF e.w # s.w THEN "a network changed outside any update"
                         ELSE IF ~NearSeq(e.w, Batch(c.C, c.lr, c.L[e.b], s.w0, 1)) THEN "one step of every optimizer in order does not explain the batch" ELSE ""
    [] OTHER -> "unknown event"
Real(c, s, e) ==
  CASE e.ev = "opt" ->
         LET own == ToSet(e.own)  ch == ToSet(e.changed)  src == Roles(c) IN
         IF e.soft THEN (IF ~(ch \subseteq Targets(c)) THEN "a network other than the targets changed in the target update" ELSE "")
         ELSE IF ~(ch \subseteq own) THEN "a network changed during another network's update"
         ELSE IF Cardinality(own) # 1 \/ ~(own \subseteq src) THEN "an optimizer does not own exactly one learned network"
         ELSE IF own \cap s.seen # {} THEN "a network was updated twice in one step"
         ELSE LET n == CHOOSE x \in own : TRUE IN
              IF Due(c, n, e.i) /\ ch = {} THEN "a network did not learn from its loss"
              ELSE IF ~Due(c, n, e.i) /\ ch # {} THEN "a network changed on a step the delay skips" ELSE ""
    [] e.ev = "end" -> IF e.exc # "" THEN "a training step failed"
                       ELSE IF ~(Roles(c) \subseteq s.seen) THEN "a learned network was not updated in the step"
                       ELSE IF e.changed # <<>> THEN "a network changed outside any update" ELSE ""
    [] e.ev = "twin" -> IF e.a # e.b THEN "evaluation heads influence what the policy learns" ELSE ""
    [] OTHER -> "unknown event"
Verdict(c, s, e) == IF c.kind = "syn" THEN Syn(c, s, e) ELSE Real(c, s, e)
INSTANCE TraceBase
====
