------------------------------ MODULE P01Trace ------------------------------
(* Recorded insertions and observations of a real buffer against the history-level rules. *)
EXTENDS ReplayBuffer, TLC, Json, IOUtils
VARIABLES t, l, st, bad
Traces == JsonDeserialize(IOEnv.TRACE_FILE)

Start(c) == [steps |-> <<>>, count |-> 0, ok |-> FALSE]
Range(s) == {s[i] : i \in 1..Len(s)}

Apply(c, s, e) ==
  CASE e.ev = "add" -> [s EXCEPT !.steps = Append(@, [p |-> PosOfNext(c, @, s.count), term |-> e.term]),
                                 !.count = CountAfter(c, s.steps, @)]
    [] OTHER -> s

Verdict(c, s, e) ==
  LET off == OfferedIdx(c, s.steps, s.count)
      cells == OfferedCells(c, s.steps, s.count)
      idOf(cell) == StepAt(c, s.steps, s.count, cell)
  IN
  CASE e.ev = "new" -> IF (e.exc = "") # Feasible(c) THEN "infeasible capacity not refused" ELSE ""
    [] e.ev = "add" -> IF e.exc # "" THEN "insertion failed" ELSE ""
    [] e.ev = "obs" ->
         CASE e.size # Cardinality(off) ->
                "wrong number of transitions counted: expected " \o ToString(Cardinality(off))
           [] off = {} /\ e.randexc = "" -> "sampling from an empty offer was not refused"
           [] off = {} -> ""
           [] e.allexc # "" -> "sampling all failed"
           [] e.randexc # "" -> "random sampling refused although transitions are offered"
           [] Len(e.cells) # Cardinality(Range(e.cells)) -> "a transition is offered twice"
           [] Range(e.cells) # cells -> "wrong transitions offered: expected " \o ToString(cells)
           [] \E k \in 1..Len(e.cells) : e.ids[k] # idOf(e.cells[k]) -> "offered cell holds another step"
           [] e.nrand # e.want -> "random sample has the wrong size"
           [] ~(Range(e.rand) \subseteq cells) -> "random sample returned a transition not offered"
           [] e.cover /\ Range(e.rand) # cells -> "an offered transition is never drawn"
           [] \E k \in 1..Len(e.rand) : e.randids[k] # idOf(e.rand[k]) -> "sampled row holds another step"
           [] OTHER -> ""
    [] OTHER -> "unknown event"

INSTANCE TraceBase
=============================================================================
