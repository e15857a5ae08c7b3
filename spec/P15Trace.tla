---- MODULE P15Trace ----
EXTENDS TrainingRun, TLC, Json, IOUtils
VARIABLES t, l, st, bad
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
(* w: digest of what was learned; ew: digest when the current epoch began; disk/dw: the last checkpoint *)
Start(c) == [disk |-> Fresh, dw |-> "", run |-> Fresh, ew |-> "", pos |-> 0, step |-> 0, fresh |-> TRUE, flushed |-> 0, evals |-> 0, w |-> ""]
ToSet(q) == {q[i] : i \in 1..Len(q)}
Apply(c, s, e) ==
  CASE e.ev = "begin" -> LET d == IF e.resumed THEN s.disk ELSE Fresh IN
         [s EXCEPT !.run = Begin(d, e.n), !.disk = d, !.pos = 0, !.step = 0, !.fresh = TRUE, !.flushed = d.done, !.evals = 0, !.ew = IF e.resumed THEN s.dw ELSE e.w]
    (* the checkpoint is written with the last batch of an epoch; its content shows in the next event *)
    [] e.ev = "batch" -> LET r == IF s.pos + 1 = c.B THEN EpochDone(s.run) ELSE s.run IN
         [s EXCEPT !.run = r, !.disk = IF s.pos + 1 = c.B THEN r ELSE @, !.pos = (@ + 1) % c.B, !.step = @ + 1, !.fresh = FALSE, !.dw = IF s.pos = 0 /\ ~s.fresh THEN e.w ELSE @]
    [] e.ev = "crash_at" -> [s EXCEPT !.dw = IF s.pos = 0 /\ ~s.fresh THEN e.w ELSE @]
    [] e.ev = "end" -> [s EXCEPT !.dw = e.w]
    [] e.ev = "save" -> [s EXCEPT !.disk = Saved(s.run)]
    [] e.ev = "flush" -> [s EXCEPT !.flushed = @ + 1]
    [] e.ev = "evalstart" -> [s EXCEPT !.evals = 0]
    [] e.ev = "eval" -> [s EXCEPT !.evals = @ + 1, !.w = e.w]
    [] OTHER -> s
Verdict(c, s, e) ==
  CASE e.ev = "begin" -> ""
    [] e.ev = "batch" ->
         IF Finished(s.run) THEN "training went on past the requested epochs"
         ELSE IF e.epoch # s.run.done THEN "the run is in another epoch than the one reached"
         ELSE IF e.idx # s.pos \/ e.id # s.pos THEN "a batch was skipped, repeated or out of order"
         ELSE IF e.step # s.step THEN "the global step does not count the batches"
         ELSE IF s.fresh /\ e.w # s.ew THEN "the run did not start from the saved parameters"
         ELSE IF c.learner = "syn" /\ s.pos = 0 /\ s.flushed # s.run.done THEN "an epoch was not reported once" ELSE ""
    [] e.ev = "crash_at" -> IF Finished(s.run) THEN "training went on past the requested epochs"
         ELSE IF e.epoch # s.run.done \/ e.idx # s.pos THEN "a batch was skipped, repeated or out of order"
         ELSE IF s.fresh /\ e.w # s.ew THEN "the run did not start from the saved parameters" ELSE ""
    [] e.ev = "end" ->
         IF e.exc # "" THEN "the training run failed"
         ELSE IF s.run.done < s.run.target \/ s.pos # 0 THEN "the run stopped before the requested epochs were done"
         ELSE IF s.fresh /\ e.w # s.ew THEN "the run did not start from the saved parameters"
         ELSE IF ~s.fresh /\ e.w # e.last THEN "the parameters after the run are not those of the last update"
         ELSE IF c.learner = "syn" /\ s.flushed # s.run.done THEN "an epoch was not reported once"
         ELSE IF c.learner = "syn" /\ s.evals # c.E THEN "an evaluation batch was not seen exactly once"
         ELSE IF c.learner = "syn" /\ c.E > 0 /\ s.w # e.w THEN "evaluation changed the learner" ELSE ""
    [] e.ev = "save" -> IF e.exc # "" THEN "saving the learner failed" ELSE ""
    [] e.ev = "flush" -> IF e.epoch # s.flushed \/ s.run.done # e.epoch + 1 \/ s.pos # 0 THEN "an epoch was not reported once, at its end" ELSE ""
    [] e.ev = "evalstart" -> IF ~Finished(s.run) THEN "evaluated before training was done" ELSE ""
    [] e.ev = "eval" -> IF e.id # s.evals + 1 THEN "an evaluation batch was not seen exactly once" ELSE ""
    [] e.ev = "twin" -> IF e.a # e.b THEN "a resumed job does not learn what an uninterrupted one does" ELSE ""
    [] e.ev = "crossed" -> IF ~e.same THEN "one job's saved state is another's" ELSE ""
    [] e.ev = "parts" ->
         IF e.exc # "" THEN "the declared components cannot be saved"
         ELSE IF ToSet(e.declared) # Components(c.learner, c.base) THEN "the learner does not hand over what it learned"
         ELSE IF ToSet(e.saved) # ToSet(e.declared) THEN "saved components are not the declared ones" ELSE ""
    [] e.ev = "loaded" ->
         IF e.exc # "" THEN "the saved components cannot be loaded"
         ELSE IF \E i \in 1..Len(e.nets) : e.nets[i].name \in Components(c.learner, c.base) /\ e.nets[i].after # e.nets[i].src THEN "a declared component was not restored"
         ELSE IF \E i \in 1..Len(e.nets) : e.nets[i].name \notin Components(c.learner, c.base) /\ e.nets[i].after # e.nets[i].before THEN "an undeclared component was changed" ELSE ""
    [] OTHER -> "unknown event"
INSTANCE TraceBase
====
