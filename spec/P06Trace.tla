------------------------------ MODULE P06Trace ------------------------------
EXTENDS Episode, TLC, Json, IOUtils
VARIABLES t, l, st, bad
Traces == JsonDeserialize(IOEnv.TRACE_FILE)

Start(c) == EpStart0(c.limit, c.mdp)
(* "begin" opens the next episode of an evaluation *)
Apply(c, s, e) ==
  CASE e.ev = "begin"  -> EpStart0(c.limit, e.mdp)
    [] e.ev = "reset"  -> DoReset(s, e.obs, e.mask)
    [] e.ev = "act"    -> DoAct(s, e.act, e.lp)
    (* without callbacks the recording of a step is not observable: it follows the step silently *)
    [] e.ev = "step"   -> LET n == DoStep(s, e.obs, e.rew, e.done, e.mask) IN IF c.callbacks THEN n ELSE DoPost(n)
    [] e.ev = "post"   -> DoPost(s)
    [] e.ev = "end"    -> DoEpisodeEnd(s)
    [] OTHER -> s

SameRec(c, a, b) ==
  /\ a.mdp = b.mdp /\ a.seq = b.seq /\ a.obs = b.obs /\ a.act = b.act /\ a.rew = b.rew
  /\ a.term = b.term /\ a.lp = b.lp /\ a.mask = b.mask
RecDiff(c, a, b) ==
  CASE a.mdp # b.mdp -> "episode id" [] a.seq # b.seq -> "sequence number" [] a.obs # b.obs -> "observation"
    [] a.act # b.act -> "action" [] a.rew # b.rew -> "reward" [] a.term # b.term -> "terminal flag"
    [] a.lp # b.lp -> "log-probability" [] a.mask # b.mask -> "action mask" [] OTHER -> ""

RECURSIVE Pw(_, _)
Pw(b, k) == IF k = 0 THEN 1 ELSE b * Pw(b, k - 1)
(* discounted sum with gamma = gn/2, scaled by 2^k (k = c.pow) *)
RECURSIVE Ret(_, _, _, _)
Ret(rs, gn, k, i) == IF i > Len(rs) THEN 0
                     ELSE rs[i] * Pw(gn, i - 1) * Pw(2, k - (i - 1)) + Ret(rs, gn, k, i + 1)

(* an episode as seen by the per-step callback: numbered 0.., terminal exactly at its last step,
   which is where the environment was done or the limit was reached *)
EpisodeOk(c, ep) ==
  /\ Len(ep) > 0 /\ (c.limit > 0 => Len(ep) <= c.limit)
  /\ \A k \in 1..Len(ep) : ep[k].seq = k - 1 /\ (ep[k].term <=> k = Len(ep))
  /\ \A k \in 1..Len(ep) - 1 : ~ep[k].envdone
  /\ ep[Len(ep)].envdone \/ Len(ep) = c.limit

Verdict(c, s, e) ==
  CASE e.ev = "begin" -> IF s.pc \in {"idle", "finished"} \/ (~c.callbacks /\ s.pc = "over") THEN "" ELSE "a new episode began before the last one was finished"
    [] e.ev = "reset" -> IF s.pc = "idle" THEN "" ELSE "unexpected reset of the environment"
    [] e.ev = "act" ->
         CASE s.pc # "ready" -> "policy asked at the wrong moment"
           [] e.obs # s.obs -> "policy was shown another observation"
           [] e.mask # s.mask -> "policy was shown another action mask"
           [] OTHER -> ""
    [] e.ev = "step" ->
         CASE s.pc # "acted" -> "environment stepped at the wrong moment"
           [] e.act # s.act -> "environment got another action than the chosen one"
           [] OTHER -> ""
    [] e.ev = "post" ->
         CASE s.pc # "stepped" -> "per-step callback at the wrong moment"
           [] OTHER -> LET d == RecDiff(c, e.rec, Record(s)) IN IF d = "" THEN "" ELSE "recorded " \o d
    [] e.ev = "end" ->
         CASE s.pc # "over" -> "per-episode callback at the wrong moment"
           [] e.n # Len(s.recs) -> "episode callback got another number of steps"
           [] OTHER -> ""
    [] e.ev = "return" ->
         CASE e.exc # "" -> "running the episode failed"
           [] s.pc # (IF c.callbacks THEN "finished" ELSE "over") -> "the run returned before the episode was finished"
           [] Len(e.recs) # Len(s.recs) -> "number of recorded steps"
           [] \E i \in 1..Len(e.recs) : ~SameRec(c, e.recs[i], s.recs[i]) ->
                "returned trajectory: " \o
                (LET i == CHOOSE j \in 1..Len(e.recs) : ~SameRec(c, e.recs[j], s.recs[j]) IN RecDiff(c, e.recs[i], s.recs[i]))
           [] \E i \in 1..Len(e.gammas) : e.rets[i] # Ret([j \in 1..Len(s.recs) |-> s.recs[j].rew], e.gammas[i], e.pow, 1) ->
                "discounted return of the trajectory"
           [] OTHER -> ""
    [] e.ev = "eval" ->
         CASE e.exc # "" -> "evaluation failed"
           [] Len(e.table) # c.n \/ Len(e.episodes) # c.n -> "number of evaluated episodes"
           [] \E i \in 1..c.n : Len(e.table[i]) # Len(e.gammas) -> "number of discounts"
           [] \E i \in 1..c.n : ~EpisodeOk(c, e.episodes[i]) -> "an evaluated episode is not one complete episode"
           [] \E i \in 1..c.n : \E j \in 1..Len(e.gammas) :
                e.table[i][j] # Ret([k \in 1..Len(e.episodes[i]) |-> e.episodes[i][k].rew], e.gammas[j], e.pow, 1)
                  -> "evaluated return is not the episode's own discounted return"
           [] OTHER -> ""
    [] OTHER -> "unknown event"

INSTANCE TraceBase
=============================================================================
