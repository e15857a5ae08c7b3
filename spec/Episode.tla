------------------------------- MODULE Episode -------------------------------
(* The agent-environment loop as a state machine.  pc: where in the step cycle we are.
   limit = 0 means no step limit.  The environment's answers are free.                       *)
EXTENDS Integers, Sequences

EpStart0(limit, mdp) == [pc |-> "idle", limit |-> limit, mdp |-> mdp, obs |-> 0, mask |-> <<>>,
                        act |-> 0, lp |-> 0, rew |-> 0, done |-> FALSE, nobs |-> 0, nmask |-> <<>>,
                        recs |-> <<>>, posted |-> 0, eps |-> 0]

DoReset(s, obs, mask) == [s EXCEPT !.pc = "ready", !.obs = obs, !.mask = mask]
DoAct(s, act, lp)     == [s EXCEPT !.pc = "acted", !.act = act, !.lp = lp]
(* the environment answered; the episode is over when it says so or the limit is reached *)
DoStep(s, obs, rew, done, mask) ==
  LET over == done \/ (s.limit > 0 /\ Len(s.recs) + 1 >= s.limit)
  IN [s EXCEPT !.pc = "stepped", !.rew = rew, !.done = over, !.nobs = obs, !.nmask = mask]
Record(s) == [mdp |-> s.mdp, seq |-> Len(s.recs), obs |-> s.obs, act |-> s.act, rew |-> s.rew,
              term |-> s.done, lp |-> s.lp, mask |-> s.mask]
DoPost(s) == [s EXCEPT !.recs = Append(@, Record(s)), !.posted = @ + 1, !.obs = s.nobs, !.mask = s.nmask,
                       !.pc = IF s.done THEN "over" ELSE "ready"]
DoEpisodeEnd(s) == [s EXCEPT !.pc = "finished", !.eps = @ + 1]
=============================================================================
