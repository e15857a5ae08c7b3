------------------------------ MODULE P07Trace ------------------------------
EXTENDS OnlineTraining, TLC, Json, IOUtils
VARIABLES t, l, st, bad
Traces == JsonDeserialize(IOEnv.TRACE_FILE)

Start(c) == OtStart(c)
Apply(c, s, e) ==
  CASE e.ev = "reset"  -> IF c.want > 0 THEN FillReset(c, s, e.obs, e.mask) ELSE OtReset(s, e.obs, e.mask)
    [] e.ev = "act"    -> OtAct(s, e.act, e.lp)
    [] e.ev = "step"   -> OtEnv(s, e.obs, e.rew, e.done, e.mask)
    [] e.ev = "insert" -> OtInsert(c, s)
    [] e.ev = "batch"  -> OtTrain(s)
    [] OTHER -> s

RecDiff(a, b) ==
  CASE a.mdp # b.mdp -> "episode id" [] a.seq # b.seq -> "sequence number" [] a.obs # b.obs -> "observation"
    [] a.act # b.act -> "action" [] a.rew # b.rew -> "reward" [] a.term # b.term -> "terminal flag"
    [] a.lp # b.lp -> "log-probability" [] a.mask # b.mask -> "action mask" [] OTHER -> ""
OfferedObs(c, s) == {s.steps[i].obs : i \in OfferedIdx(c, s.steps, s.count)}

Owes == "a training batch is missing after a selected step"
Verdict(c, s, e) ==
  CASE e.ev = "reset" ->
         CASE s.owed -> Owes
           [] s.ep.pc \notin {"idle", "over"} -> "the environment was reset inside an episode"
           [] c.episodes > 0 /\ OtFinished(c, s) -> "more episodes than requested"
           [] c.want > 0 /\ FillOver(c, s) -> "filling went on after it was complete or stuck"
           [] OTHER -> ""
    [] e.ev = "act" ->
         CASE s.owed -> Owes
           [] s.ep.pc = "stepped" -> "a step was not inserted before the next one"
           [] s.ep.pc # "ready" -> "the policy acted outside an episode"
           [] e.obs # s.ep.obs -> "policy was shown another observation"
           [] e.mask # s.ep.mask -> "policy was shown another action mask"
           [] OTHER -> ""
    [] e.ev = "step" -> CASE s.ep.pc # "acted" -> "environment stepped at the wrong moment"
                          [] e.act # s.ep.act -> "environment got another action than the chosen one"
                          [] OTHER -> ""
    [] e.ev = "insert" ->
         CASE s.ep.pc # "stepped" -> "a step was inserted twice or at the wrong moment"
           [] s.owed -> Owes
           [] OTHER -> LET d == RecDiff(e.rec, Record(s.ep)) IN
                       CASE d # "" -> "inserted " \o d
                         [] e.size # OtSize(c, OtInsert(c, s)) -> "number of transitions offered"
                         [] OTHER -> ""
    [] e.ev = "batch" ->
         CASE s.ep.pc = "stepped" -> "trained before the step was inserted"
           [] ~s.owed -> "training batch after a step that the cadence does not select"
           [] e.n # c.bs -> "training batch of the wrong size"
           [] ~({e.obs[k] : k \in 1..Len(e.obs)} \subseteq OfferedObs(c, s)) -> "training batch contains a transition that is not offered"
           [] OTHER -> ""
    (* the callback refuses to train when the buffer does not offer a full batch *)
    [] e.ev = "refuse" ->
         CASE s.owed -> "training refused although the buffer offers enough"
           [] (s.g - 1) % c.freq # 0 -> "training refused after a step the cadence does not select"
           [] OTHER -> ""
    [] e.ev = "skipped" -> (* callback returned without training *)
         CASE s.owed -> Owes [] s.ep.pc = "stepped" -> "a step was not inserted"
           [] (s.g - 1) % c.freq = 0 /\ OtSize(c, s) < c.bs -> "training silently skipped by the callback"
           [] OTHER -> ""
    [] e.ev = "end" ->
         CASE e.exc # "" -> "online training failed"
           [] s.owed -> Owes
           [] s.ep.pc # "over" -> "training ended inside an episode"
           [] ~OtFinished(c, s) -> "training ended before the requested number of episodes"
           [] OTHER -> ""
    [] e.ev = "fill" ->
         CASE e.exc # "" -> "filling the buffer failed"
           [] e.size # OtSize(c, s) -> "number of transitions offered after filling"
           [] s.ep.pc # "over" -> "filling ended inside an episode"
           [] e.size > c.want -> "buffer filled beyond the requested amount"
           [] ~FillOver(c, s) -> "filling stopped before the requested amount"
           [] OTHER -> ""
    [] OTHER -> "unknown event"

INSTANCE TraceBase
=============================================================================
