------------------------------ MODULE P02Trace ------------------------------
EXTENDS ReplayContent, Json, IOUtils
VARIABLES t, l, st, bad
Traces == JsonDeserialize(IOEnv.TRACE_FILE)

Start(c) == [steps |-> <<>>, count |-> 0]

Step(c, s, e) == [p |-> PosOfNext(c, s.steps, s.count), term |-> e.term, id |-> e.id, obs |-> e.obs,
                  act |-> e.act, rew |-> e.rew, x |-> e.x, idl |-> e.idl, idsc |-> e.idsc]
Apply(c, s, e) ==
  IF e.ev = "add" THEN [steps |-> Append(s.steps, Step(c, s, e)), count |-> CountAfter(c, s.steps, s.count)]
  ELSE s

Verdict(c, s, e) ==
  CASE e.ev = "add" -> IF e.exc # "" THEN "insertion failed" ELSE ""
    [] e.ev = "rows" ->
         LET cells == OfferedCells(c, s.steps, s.count)
             badrow(k) == IF e.rows[k].cell \notin cells THEN "row not offered"
                          ELSE RowVerdict(c, s.steps, StepAt(c, s.steps, s.count, e.rows[k].cell), e.rows[k])
             bads == {k \in 1..Len(e.rows) : badrow(k) # ""}
         IN CASE e.exc # "" -> IF cells = {} THEN "" ELSE "sampling failed"
              [] e.how = "all" /\ Len(e.rows) # Cardinality(cells) -> "number of rows"
              [] e.how = "batch" /\ Len(e.rows) # e.want -> "batch size"
              [] e.how = "idx" /\ [k \in 1..Len(e.rows) |-> e.rows[k].cell] # e.asked -> "rows do not follow the requested indices"
              [] bads # {} -> badrow(CHOOSE k \in bads : \A j \in bads : k <= j)
              [] OTHER -> ""
    [] OTHER -> "unknown event"

INSTANCE TraceBase
=============================================================================
