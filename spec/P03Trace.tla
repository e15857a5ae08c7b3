------------------------------ MODULE P03Trace ------------------------------
(* Real buffers saved and restored: the restored buffer is the saved one, a failed restore
   changes nothing, retention follows Checkpoint.tla.                                        *)
EXTENDS ReplayContent, Checkpoint, Json, IOUtils
VARIABLES t, l, st, bad
Traces == JsonDeserialize(IOEnv.TRACE_FILE)

Empty == [steps |-> <<>>, count |-> 0, prio |-> <<>>]
(* bufs: one state per buffer object; dir: saved states *)
Start(c) == [bufs |-> <<Empty>>, dir |-> [k \in {} |-> Empty]]

Step(c, s, e) == [p |-> PosOfNext(c, s.steps, s.count), term |-> e.term, id |-> e.id, obs |-> e.obs,
                  act |-> e.act, rew |-> e.rew, x |-> e.x, idl |-> e.idl, idsc |-> e.idsc]
AddTo(c, s, e) == [steps |-> Append(s.steps, Step(c, s, e)), count |-> CountAfter(c, s.steps, s.count),
                   prio |-> Append(s.prio, e.prio)]
Apply(c, s, e) ==
  CASE e.ev = "new"  -> [s EXCEPT !.bufs = Append(@, Empty)]
    [] e.ev = "add"  -> [s EXCEPT !.bufs[e.b] = AddTo(c, @, e)]
    [] e.ev = "save" -> [s EXCEPT !.dir = SaveTo(@, e.i, s.bufs[e.b])]
    [] e.ev = "load" /\ e.whole -> [s EXCEPT !.bufs[e.b] = s.dir[e.i]]
    [] OTHER -> s

SeqRange(q) == {q[i] : i \in 1..Len(q)}

Verdict(c, s, e) ==
  CASE e.ev = "new" -> IF e.exc # "" THEN "construction failed" ELSE ""
    [] e.ev = "add" -> IF e.exc # "" THEN "insertion failed" ELSE ""
    [] e.ev = "save" -> IF e.exc # "" THEN "saving failed" ELSE ""
    [] e.ev = "ls" ->
         CASE SeqRange(e.complete) # Iters(s.dir) -> "wrong checkpoints kept: expected " \o ToString(Iters(s.dir))
           [] SeqRange(e.partial) # {} -> "files of a removed checkpoint left behind"
           [] ~e.others -> "a file that is no stale checkpoint was removed or changed"
           [] OTHER -> ""
    [] e.ev = "load" ->
         CASE e.whole /\ e.exc # "" -> "restoring a complete checkpoint failed"
           [] ~e.whole /\ e.exc = "" -> "restoring an incomplete checkpoint was not refused"
           [] OTHER -> ""
    [] e.ev = "rows" ->
         LET b == s.bufs[e.b]
             cells == OfferedCells(c, b.steps, b.count)
             badrow(k) == IF e.rows[k].cell \notin cells THEN "row not offered"
                          ELSE LET i == StepAt(c, b.steps, b.count, e.rows[k].cell)
                                   v == RowVerdict(c, b.steps, i, e.rows[k])
                               IN IF v # "" THEN v
                                  ELSE IF c.prioritized /\ e.rows[k].prob # b.prio[i] THEN "priority" ELSE ""
             bads == {k \in 1..Len(e.rows) : badrow(k) # ""}
         IN CASE e.size # Cardinality(cells) -> "size: expected " \o ToString(Cardinality(cells))
              [] e.exc # "" -> "sampling failed"
              [] Len(e.rows) # Cardinality(cells) -> "number of rows"
              [] bads # {} -> badrow(CHOOSE k \in bads : \A j \in bads : k <= j)
              [] OTHER -> ""
    [] OTHER -> "unknown event"

INSTANCE TraceBase
=============================================================================
