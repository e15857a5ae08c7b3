---- MODULE P28Trace ----
EXTENDS Summaries, TLC, Json, IOUtils
VARIABLES t, l, st, bad
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
Start(c) == Clean
Ign(c, w) == c.writers[w].ignores
(* one write: exactly one call on the innermost writer, none elsewhere *)
Calls(c, s, e) == IF Target(s) = 0 THEN <<>> ELSE <<[w |-> Target(s), f |-> e.f, tag |-> e.tag, v |-> e.v, step |-> StepOf(s, e.step)]>>
SameCall(a, b) == a.w = b.w /\ a.f = b.f /\ a.tag = b.tag /\ a.v = b.v /\ a.step = b.step
SameCalls(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : SameCall(a[i], b[i])
Fails(c, s, e) == IF Target(s) = 0 THEN "" ELSE e.fail
Write(c, s, e) ==
  LET x == Fails(c, s, e)  w == Target(s)
      want == IF w = 0 THEN "" ELSE Raised(e.f, Ign(c, w), x)
  IN IF e.exc # want THEN (IF want = "" THEN "a write failed that should not have" ELSE "a failed write was swallowed or changed")
     ELSE IF ~SameCalls(e.calls, Calls(c, s, e)) THEN "a summary was not written once to the innermost writer at the step reached"
     ELSE IF w > 0 /\ x # "" /\ c.writers[w].note = 1 /\ Ignored(Ign(c, w), x) /\ e.noted # <<x>> THEN "an ignored failure was not noted"
     ELSE IF (w = 0 \/ x = "" \/ ~Ignored(Ign(c, w), x)) /\ e.noted # <<>> THEN "a failure was noted that was not ignored" ELSE ""
(* several summaries written by one component: <<f, tag, value>> each, in any order *)
Bulk(c, s, e) ==
  IF e.exc # "" THEN "a component could not write its summaries"
  ELSE IF Target(s) = 0 THEN (IF e.calls # <<>> THEN "a summary was written without an active writer" ELSE "")
  ELSE IF Len(e.calls) # Len(e.want) THEN "a summary is missing or repeated"
  ELSE IF \E i \in 1..Len(e.want) : ~\E j \in 1..Len(e.calls) : SameCall(e.calls[j], [w |-> Target(s), f |-> e.want[i].f, tag |-> e.want[i].tag, v |-> e.want[i].v, step |-> StepOf(s, e.step)])
    THEN "a component's summary is wrong" ELSE ""
(* the estimates told in the log: each once, with its numbers in order *)
Lines(e) ==
  IF e.exc # "" THEN "the estimates could not be logged"
  ELSE IF \E i \in 1..Len(e.want) : Cardinality({j \in 1..Len(e.got) : e.got[j].est = e.want[i].est}) # 1 THEN "an estimate is missing from the log or repeated"
  ELSE IF \E i \in 1..Len(e.want), j \in 1..Len(e.got) : e.got[j].est = e.want[i].est /\ (Len(e.got[j].num) # 4 \/ \E k \in 1..4 : e.got[j].num[k] - e.want[i].num[k] \notin -8..8)
    THEN "the log tells another estimate" ELSE ""
(* whatever a learner writes while it trains goes to the innermost writer, at the step of its batch *)
Train(c, s, e) ==
  IF e.exc # "" THEN "training failed"
  ELSE IF e.after # s.step + e.n THEN "the global step does not count the batches"
  ELSE IF \E i \in 1..Len(e.calls) : e.calls[i].w # Target(s) THEN "a summary was written to the wrong writer"
  ELSE IF Target(s) # 0 /\ \E i \in 1..e.n : Cardinality({j \in 1..Len(e.calls) : e.calls[j].tag = "probe" /\ e.calls[j].step = s.step + i - 1}) # 1 THEN "a batch's summary is not at its step"
  ELSE IF \E i \in 1..Len(e.calls) : e.calls[i].step < s.step \/ e.calls[i].step >= s.step + e.n THEN "a summary is at a step never reached" ELSE ""
(* declared charts grouped by category *)
SameCharts(s, e) ==
  /\ Len(e.got) = Len(s.charts)
  /\ \A i \in 1..Len(s.charts) : \E j \in 1..Len(e.got) : e.got[j].cat = s.charts[i].cat /\ e.got[j].title = s.charts[i].title /\ e.got[j].tags = s.charts[i].tags /\ e.got[j].type = "Multiline"
ChartOk(s, e) == e.cat # "" /\ e.title # "" /\ ~Declared(s, e.cat, e.title)
Verdict(c, s, e) ==
  CASE e.ev = "enter" -> IF e.exc # "" THEN "a writer was refused" ELSE ""
    [] e.ev = "refuse" -> IF e.exc = "" THEN "something that is no summary writer was accepted" ELSE ""
    [] e.ev = "leave" -> IF e.exc # e.err THEN "leaving a context changed the error" ELSE ""
    [] e.ev = "write" -> Write(c, s, e)
    [] e.ev = "bulk" -> Bulk(c, s, e)
    [] e.ev = "step" -> ""
    [] e.ev = "train" -> Train(c, s, e)
    [] e.ev = "episode" -> IF e.exc # "" THEN "an episode failed" ELSE IF e.after # s.step + e.n THEN "the global step does not count the steps of the episode" ELSE ""
    [] e.ev = "chart" -> IF ChartOk(s, e) /\ e.exc # "" THEN "a chart was refused" ELSE IF ~ChartOk(s, e) /\ e.exc = "" THEN "a chart was declared twice or without a name" ELSE ""
    [] e.ev = "charts" -> IF e.exc # "" THEN "the charts could not be written" ELSE IF e.w # e.to THEN "the charts went to another writer" ELSE IF ~SameCharts(s, e) THEN "the charts written are not those declared" ELSE ""
    [] e.ev = "access" -> IF e.exc # "" THEN "the learner's summary writer could not be reached"
         ELSE LET B == {i \in 1..Len(e.loggers) : e.loggers[i].tb = 1} IN
              IF e.got # (IF B = {} THEN 0 ELSE e.loggers[CHOOSE i \in B : \A j \in B : i <= j].id) THEN "the learner's summary writer is not its logger's" ELSE ""
    [] e.ev = "lines" -> Lines(e)
    [] OTHER -> "unknown event"
Apply(c, s, e) ==
  CASE e.ev = "enter" -> Enter(s, e.w)
    [] e.ev = "leave" -> Leave(s)
    [] e.ev = "step" -> [s EXCEPT !.step = @ + 1]
    [] e.ev \in {"train", "episode"} -> [s EXCEPT !.step = @ + e.n]
    [] e.ev = "chart" -> IF ChartOk(s, e) THEN Chart(s, e.cat, e.title, e.tags) ELSE s
    [] OTHER -> s
INSTANCE TraceBase
====
