---- MODULE P30Trace ----
EXTENDS Publish, TLC, Json, IOUtils
VARIABLES t, l, st, bad
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
(* plan: the stages to come; w: the workflow under way; nets: fingerprint of the networks as training left them; old: what earlier models answered *)
Start(c) == [store |-> {}, files |-> {c.files[i] : i \in 1..Len(c.files)}, plan |-> <<>>, w |-> [epochs |-> 0], reads |-> 0, nets |-> 0, named |-> <<>>, old |-> <<>>]
HsOf(c) == {c.rows[i] : i \in 1..Len(c.rows)}
Sampled(c, hs, lo, hi) == /\ \A i \in 1..Len(hs) : Possibly(hs[i], lo, hi)
                          /\ \A h \in HsOf(c) : Surely(h, lo, hi) => \E i \in 1..Len(hs) : hs[i] = h
Range(s) == {s[i] : i \in 1..Len(s)}
Stage(s, x) == s.plan # <<>> /\ s.plan[1] = x
Pub(c, s, e) ==
  LET outs == e.outs IN
  IF Sound(s.files, outs) THEN (IF e.exc # "" THEN "a model could not be published" ELSE IF e.ok # 1 THEN "a publication was reported as failed" ELSE "")
  ELSE IF e.exc = "" THEN "a model file that does not exist was published" ELSE ""
Get(c, s, e) ==
  LET h == Held(s.store, <<e.m, e.mod>>) IN
  IF e.got \in h THEN "" ELSE IF h = {0} THEN "a model was found that was never published" ELSE IF e.got = 0 THEN "a published model was not found" ELSE "a lookup found another model than the latest published"
Read(c, s, e) ==
  LET w == s.w
      train == s.reads < w.epochs IN
  IF ~Stage(s, "read") THEN "data was read out of turn"
  ELSE IF train /\ ~Sampled(c, e.hs, 0, TrainHi(w)) THEN "training did not read the training sample"
  ELSE IF ~train /\ ~Sampled(c, e.hs, EvalLo(w), 1000) THEN "evaluation did not read the evaluation sample"
  ELSE IF e.b # w.batch \/ e.n # (e.total + w.batch - 1) \div w.batch THEN "the data was not read in the batches asked for"
  ELSE ""
Done(c, s, e) ==
  LET w == s.w IN
  IF Fails(w) THEN (IF e.exc = "" THEN "a workflow that cannot be right was run" ELSE IF e.trained = 1 THEN "a refused workflow trained nevertheless" ELSE "")
  ELSE IF e.exc # "" THEN "a workflow failed"
  ELSE IF w.give # 2 /\ (Len(e.tables) # 1 + w.cpe \/ ~(\E i \in 1..Len(e.tables) : Sampled(c, e.tables[i], 0, TrainHi(w)) /\ (w.cpe = 1 => \E j \in 1..Len(e.tables) : j # i /\ Sampled(c, e.tables[j], EvalLo(w), 1000)))) THEN "the data queried is not the samples asked for"
  ELSE IF ~Stage(s, "done") THEN "a stage was left out"
  ELSE IF e.nets # s.nets THEN "the exported model is not the trained one"
  ELSE IF Range(e.names) # Range(w.names) \/ Len(e.names) # Len(w.names) THEN "not every module was exported"
  ELSE IF \E i, j \in 1..Len(e.files) : i # j /\ e.files[i] = e.files[j] THEN "modules share one file"
  ELSE IF \E i \in 1..Len(e.have) : e.have[i] # e.want[i] THEN "an exported module does not answer as the module of that name"
  ELSE IF \E i \in 1..Len(s.old) : e.old[i] # s.old[i] THEN "an earlier exported model was overwritten"
  ELSE IF e.report # 1 THEN "the training report is missing"
  ELSE IF e.valid # w.valid THEN "the validation result is not the validator's"
  ELSE IF e.pub # (IF w.pub > 0 /\ w.valid # 2 THEN 1 ELSE 0) THEN "the publishing result is not the publisher's"
  ELSE IF (w.give \in {1, 4}) /\ w.takes = 1 /\ e.mean # w.mean THEN "the given normalisation was not used"
  ELSE IF ~((w.give \in {1, 4}) /\ w.takes = 1) /\ ~Near(e.mean, SumSeq(c.s0) \div Len(c.s0), 8) THEN "the normalisation is not the table's"
  ELSE ""
Verdict(c, s, e) ==
  CASE e.ev = "pub" -> Pub(c, s, e)
    [] e.ev = "get" -> Get(c, s, e)
    [] e.ev = "read" -> Read(c, s, e)
    [] e.ev = "fit" -> IF Stage(s, "fit") THEN "" ELSE "training ended out of turn"
    [] e.ev = "validate" -> IF ~Stage(s, "validate") THEN "validation out of turn"
                            ELSE IF e.nets # s.nets \/ e.exist # 1 \/ Range(e.names) # Range(s.w.names) THEN "validation was not of the trained and exported model"
                            ELSE IF e.report # 1 THEN "the validator was not given the training report" ELSE ""
    [] e.ev = "publish" -> IF ~Stage(s, "publish") THEN (IF s.w.valid = 2 THEN "a model its validation refused was published" ELSE "publication out of turn")
                           ELSE IF e.same # 1 \/ e.exist # 1 \/ Range(e.names) # Range(s.w.names) \/ Range(e.ids) # Range(s.w.names) \/ e.valid # s.w.valid THEN "publication was not of the trained and validated model" ELSE ""
    [] e.ev = "done" -> Done(c, s, e)
    [] OTHER -> ""
Apply(c, s, e) ==
  CASE e.ev = "pub" -> [s EXCEPT !.store = Publication(s.store, s.files, e.m, e.outs)]
    [] e.ev = "get" -> [s EXCEPT !.store = Set(s.store, <<e.m, e.mod>>, {e.got})]
    [] e.ev = "turn" -> [s EXCEPT !.files = IF e.f \in s.files THEN s.files \ {e.f} ELSE s.files \cup {e.f}]
    [] e.ev = "begin" -> [s EXCEPT !.w = e.w, !.plan = IF Fails(e.w) THEN <<>> ELSE Plan(e.w), !.reads = 0, !.nets = 0]
    [] e.ev = "read" -> [s EXCEPT !.plan = Tail(@), !.reads = @ + 1]
    [] e.ev = "fit" -> [s EXCEPT !.plan = Tail(@), !.nets = e.nets]
    [] e.ev \in {"validate", "publish"} -> [s EXCEPT !.plan = Tail(@)]
    [] e.ev = "done" -> IF e.exc # "" THEN s
                        ELSE [s EXCEPT !.plan = <<>>, !.old = s.old \o e.have, !.files = s.files \cup Range(e.files),
                                       !.store = IF s.w.pub = 2 /\ s.w.valid # 2 THEN PutAll(s.store, s.files, s.w.conf, [i \in 1..Len(e.names) |-> <<e.names[i], e.files[i]>>]) ELSE s.store]
    [] OTHER -> s
INSTANCE TraceBase
====
