---- MODULE P10Trace ----
EXTENDS QLearning, TLC, Json, IOUtils
VARIABLES t, l, st, bad
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
Start(c) == [q |-> c.q, tq |-> c.tq, rw |-> c.rw, cq |-> c.cq, tcq |-> c.tcq]
Apply(c, s, e) == IF e.ev = "step" THEN [q |-> e.q, tq |-> e.tq, rw |-> e.rw, cq |-> e.cq, tcq |-> e.tcq] ELSE s

Tol == 8
Cells(c) == {<<x, y>> : x \in 0..(c.S - 1), y \in 0..(c.A - 1)}
Logged(B, x) == \E i \in 1..Len(B) : B[i].s = x[1] /\ B[i].a = x[2]
QOk(c, s, e, x) == LET v == e.q[x[1] + 1][x[2] + 1] IN Within(v, StepQLo(c, s.q, s.tq, e.rows, x[1], x[2]), StepQHi(c, s.q, s.tq, e.rows, x[1], x[2]), Tol)
TOk(c, old, new, src) == Near(new, Soft(c, src, old), Tol)
HeadCells(c) == {<<x, y, k>> : x \in 0..(c.S - 1), y \in 0..(c.A - 1), k \in 1..c.metrics}
Verdict(c, s, e) ==
  CASE e.ev # "step" -> "unknown event"
    [] e.exc # "" -> "a training step failed"
    [] \E x \in Cells(c) : ~Logged(e.rows, x) /\ e.q[x[1] + 1][x[2] + 1] # s.q[x[1] + 1][x[2] + 1] -> "the value of a state and action not in the batch moved"
    [] \E x \in Cells(c) : Logged(e.rows, x) /\ ~QOk(c, s, e, x) -> "a logged value did not move toward its Bellman target as specified"
    [] \E x \in Cells(c) : ~TOk(c, s.tq[x[1] + 1][x[2] + 1], e.tq[x[1] + 1][x[2] + 1], e.q[x[1] + 1][x[2] + 1]) -> "target table"
    [] c.heads # "none" /\ \E x \in HeadCells(c) : ~Near(e.rw[x[1] + 1][x[3]][x[2] + 1], StepReward(c, s.rw, e.rows, x[1], x[2], x[3]), Tol) -> "reward head"
    [] c.heads = "full" /\ \E x \in HeadCells(c) :
         ~Within(e.cq[x[1] + 1][x[3]][x[2] + 1], StepCpe(c, FALSE, s.q, e.q, s.cq, s.tcq, e.rows, x[1], x[2], x[3]),
                 StepCpe(c, TRUE, s.q, e.q, s.cq, s.tcq, e.rows, x[1], x[2], x[3]), Tol) -> "evaluation value head"
    [] c.heads = "full" /\ \E x \in HeadCells(c) :
         ~TOk(c, s.tcq[x[1] + 1][x[3]][x[2] + 1], e.tcq[x[1] + 1][x[3]][x[2] + 1], e.cq[x[1] + 1][x[3]][x[2] + 1]) -> "evaluation target head"
    [] OTHER -> ""
INSTANCE TraceBase
====
