------------------------------ MODULE P04Trace ------------------------------
(* Sum tree and prioritized buffer.  c.kind = "tree" or "buffer". *)
EXTENDS ReplayBuffer, SumTree, TLC, Json, IOUtils
VARIABLES t, l, st, bad
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
Rng(s) == {s[i] : i \in 1..Len(s)}

Start(c) == [p |-> [i \in 0..c.cap-1 |-> 0], mx |-> c.one, steps |-> <<>>, count |-> 0]

(* inserting: padding cells get priority 0, the step its own *)
PadCells(c, s) == {k % c.cap : k \in s.count..PosOfNext(c, s.steps, s.count)-1}
Apply(c, s, e) ==
  CASE e.ev = "set" /\ e.exc = "" ->
         [s EXCEPT !.p[e.i] = e.v, !.mx = Max2(@, e.v)]
    [] e.ev = "add" ->
         LET pos == PosOfNext(c, s.steps, s.count) IN
         [s EXCEPT !.steps = Append(@, [p |-> pos, term |-> e.term]), !.count = pos + 1, !.mx = Max2(@, e.v),
                   !.p = [i \in 0..c.cap-1 |-> IF i = pos % c.cap THEN e.v ELSE IF i \in PadCells(c, s) THEN 0 ELSE @[i]]]
    [] OTHER -> s

Verdict(c, s, e) ==
  LET tot == Total(s.p, c.cap)
      off == IF c.kind = "tree" THEN 0..c.cap-1 ELSE OfferedCells(c, s.steps, s.count)
      good == {k \in off : s.p[k] > 0}
      RECURSIVE SumOver(_)
      SumOver(S) == IF S = {} THEN 0 ELSE LET k == CHOOSE x \in S : TRUE IN s.p[k] + SumOver(S \ {k})
  IN
  CASE e.ev = "new" -> IF (e.exc = "") # e.feasible THEN "construction" ELSE ""
    [] e.ev = "set" -> IF (e.v < 0) # (e.exc # "") THEN "invalid priority accepted or valid one refused" ELSE ""
    [] e.ev = "add" -> IF e.exc # "" THEN "insertion failed" ELSE ""
    [] e.ev = "get" -> IF e.vals # [k \in 1..Len(e.idx) |-> s.p[e.idx[k]]] THEN "stored priority is not the last one set" ELSE ""
    [] e.ev = "max" -> IF e.v # s.mx THEN "maximum recorded priority" ELSE ""
    [] e.ev = "draw" ->
         CASE e.num < 0 \/ e.num > e.den -> IF e.exc = "" THEN "out-of-range draw not refused" ELSE ""
           [] tot = 0 -> IF e.exc = "" THEN "draw from zero total not refused" ELSE ""
           [] e.exc # "" -> "draw refused"
           [] e.got # CellOf(s.p, c.cap, e.num, e.den) -> "draw mapped to the wrong cell: expected " \o ToString(CellOf(s.p, c.cap, e.num, e.den))
           [] OTHER -> ""
    [] e.ev = "rand" ->
         CASE tot = 0 -> IF e.exc = "" THEN "draw from zero total not refused" ELSE ""
           [] e.exc # "" -> "draw refused"
           [] ~(Rng(e.got) \subseteq good) -> "random draw returned a zero-priority cell"
           [] Rng(e.got) # good -> "a cell with positive priority is never drawn"
           [] OTHER -> ""
    [] e.ev = "strat" ->
         CASE tot = 0 -> IF e.exc = "" THEN "draw from zero total not refused" ELSE ""
           [] e.exc # "" -> "draw refused"
           [] Len(e.got) # e.b -> "number of stratified draws"
           [] \E j \in 1..e.b : e.got[j] \notin Slice(s.p, c.cap, j - 1, e.b) -> "stratified draw outside its slice"
           [] OTHER -> ""
    [] e.ev = "batch" ->
         CASE good = {} /\ e.exc = "" -> "sampling without any live transition was not refused"
           [] good = {} -> ""
           [] e.exc # "" /\ SumOver(good) * 4 >= tot /\ e.tries >= 500 -> "sampling refused"
           [] e.exc # "" -> ""
           [] Len(e.got) # e.b -> "batch size"
           [] ~(Rng(e.got) \subseteq off) -> "sampled a transition that is not offered"
           [] ~(Rng(e.got) \subseteq good) -> "sampled a zero-priority transition"
           [] e.strat /\ \E j \in 1..e.b :
                /\ e.got[j] \notin Slice(s.p, c.cap, j - 1, e.b)
                /\ Slice(s.p, c.cap, j - 1, e.b) \subseteq off -> "draw outside its slice although the slice is live"
           [] e.probs # [k \in 1..Len(e.got) |-> s.p[e.got[k]]] -> "reported priority is not the current one"
           [] e.cover /\ Rng(e.got) # good -> "a live transition with priority is never drawn"
           [] e.ids # [k \in 1..Len(e.got) |-> StepAt(c, s.steps, s.count, e.got[k])] -> "row is another step"
           [] OTHER -> ""
    [] OTHER -> "unknown event"

INSTANCE TraceBase
=============================================================================
