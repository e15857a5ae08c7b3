---- MODULE P11Trace ----
EXTENDS Distributional, TLC, Json, IOUtils
VARIABLES t, l, st, bad
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
Start(c) == [q |-> c.q, tq |-> c.tq, rw |-> c.rw, cq |-> c.cq, tcq |-> c.tcq]
Apply(c, s, e) == IF e.ev = "step" THEN [q |-> e.q, tq |-> e.tq, rw |-> e.rw, cq |-> e.cq, tcq |-> e.tcq] ELSE s
Tol == 10
Cells(c) == {<<x, y>> : x \in 0..(c.S - 1), y \in 0..(c.A - 1)}
Logged(B, x) == \E i \in 1..Len(B) : B[i].s = x[1] /\ B[i].a = x[2]
HeadCells(c) == {<<x, y, k>> : x \in 0..(c.S - 1), y \in 0..(c.A - 1), k \in 1..c.metrics}
AtomsOk(c, s, e, x) == \A i \in 1..c.N :
  Within(e.q[x[1] + 1][x[2] + 1][i], StepD(c, FALSE, s.q, s.tq, e.rows, x[1], x[2], i), StepD(c, TRUE, s.q, s.tq, e.rows, x[1], x[2], i), Tol)
MeanTab(c, q) == [s \in 1..c.S |-> Values(c, q, s - 1)]
Verdict(c, s, e) ==
  CASE e.ev # "step" -> "unknown event"
    [] e.exc # "" -> "a training step failed"
    [] \E x \in Cells(c) : ~Logged(e.rows, x) /\ e.q[x[1] + 1][x[2] + 1] # s.q[x[1] + 1][x[2] + 1] -> "the distribution of a state and action not in the batch moved"
    [] \E x \in Cells(c) : Logged(e.rows, x) /\ ~AtomsOk(c, s, e, x) -> "a logged return distribution did not move toward its target distribution"
    [] \E x \in Cells(c) : \E i \in 1..c.N : ~Near(e.tq[x[1] + 1][x[2] + 1][i], Soft(c, e.q[x[1] + 1][x[2] + 1][i], s.tq[x[1] + 1][x[2] + 1][i]), Tol) -> "target distributions"
    [] c.heads = "full" /\ \E x \in HeadCells(c) : ~Near(e.rw[x[1] + 1][x[3]][x[2] + 1], StepReward([c EXCEPT !.lr = c.lrc], s.rw, e.rows, x[1], x[2], x[3]), Tol) -> "reward head"
    [] c.heads = "full" /\ LET mq == MeanTab(c, s.q)  mq1 == MeanTab(c, e.q)  cc == [c EXCEPT !.lr = c.lrc] IN \E x \in HeadCells(c) :
         ~Within(e.cq[x[1] + 1][x[3]][x[2] + 1], StepCpe(cc, FALSE, mq, mq1, s.cq, s.tcq, e.rows, x[1], x[2], x[3]),
                 StepCpe(cc, TRUE, mq, mq1, s.cq, s.tcq, e.rows, x[1], x[2], x[3]), Tol) -> "evaluation value head"
    [] c.heads = "full" /\ \E x \in HeadCells(c) :
         ~Near(e.tcq[x[1] + 1][x[3]][x[2] + 1], Soft(c, e.cq[x[1] + 1][x[3]][x[2] + 1], s.tcq[x[1] + 1][x[3]][x[2] + 1]), Tol) -> "evaluation target head"
    [] OTHER -> ""
INSTANCE TraceBase
====
