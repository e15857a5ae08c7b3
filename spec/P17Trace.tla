---- MODULE P17Trace ----
EXTENDS SlateQ, TLC, Json, IOUtils
VARIABLES t, l, st, bad
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
Start(c) == [q |-> c.q, tq |-> c.tq]
Apply(c, s, e) == IF e.ev = "step" THEN [q |-> e.q, tq |-> e.tq] ELSE s
Tol == 8
Cells(c) == (1..c.S) \X (1..c.D)
Verdict(c, s, e) ==
  CASE e.ev = "step" ->
    (IF e.exc # "" THEN "a training step failed"
     ELSE LET n == Step(c, s.q, s.tq, e.rows)  P == {CellOf(e.rows, p) : p \in Positions(c, e.rows)} IN
       IF \E x \in Cells(c) : <<x[1] - 1, x[2] - 1>> \notin P /\ e.q[x[1]][x[2]] # s.q[x[1]][x[2]] THEN "the value of an item that was not to be learnt moved"
       ELSE IF \E x \in Cells(c) : ~Near(e.q[x[1]][x[2]], n[x[1]][x[2]], Tol) THEN "the value of a shown item did not move as specified"
       ELSE IF \E x \in Cells(c) : ~Near(e.tq[x[1]][x[2]], Soft(c, e.q[x[1]][x[2]], s.tq[x[1]][x[2]]), Tol) THEN "target table" ELSE "")
    [] e.ev = "act" ->
       IF e.exc # "" THEN "choosing a slate failed"
       ELSE IF \E i \in 1..Len(e.rows) : Len(e.rows[i].a) # c.k \/ ~TopK(Scores(s.q, e.rows[i].s, e.rows[i].docs, e.rows[i].vals), e.rows[i].a, 6) THEN "the slate is not the best candidates by their chance to be picked times their value" ELSE ""
    [] e.ev = "absent" -> IF e.exc = "AssertionError" THEN "" ELSE "a slate with an absent candidate was not refused"
    [] OTHER -> "unknown event"
INSTANCE TraceBase
====
