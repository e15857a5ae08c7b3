--------------------------- MODULE OnlineTraining ---------------------------
(* Online training: the episode loop feeding a replay buffer, with training interleaved.
   c: [cap, stack, n, freq, bs, limit, episodes]; limit/episodes = 0 mean unbounded.
   g counts inserted steps; batches is the sequence of g's after which a batch was produced. *)
EXTENDS Episode, ReplayBuffer

OtStart(c) == [ep |-> [EpStart0(c.limit, c.mdp) EXCEPT !.pc = "idle"], steps |-> <<>>, count |-> 0, g |-> 0,
               owed |-> FALSE, batches |-> <<>>, sz0 |-> -1]
OtSize(c, o) == Cardinality(OfferedIdx(c, o.steps, o.count))
OtReset(o, obs, mask) == [o EXCEPT !.ep = DoReset(EpStart0(@.limit, IF @.pc = "over" THEN @.mdp + 1 ELSE @.mdp), obs, mask)]
(* filling a buffer up to c.want: each episode may use at most what is still missing *)
FillLimit(c, o) == LET miss == c.want - OtSize(c, o) IN IF c.envmax > 0 THEN Min2(c.envmax, miss) ELSE miss
FillOver(c, o) == OtSize(c, o) >= c.want \/ OtSize(c, o) <= o.sz0
FillReset(c, o, obs, mask) ==
  [o EXCEPT !.ep = DoReset(EpStart0(FillLimit(c, o), IF @.pc = "over" THEN @.mdp + 1 ELSE @.mdp), obs, mask),
            !.sz0 = OtSize(c, o)]
OtAct(o, act, lp) == [o EXCEPT !.ep = DoAct(@, act, lp)]
OtEnv(o, obs, rew, done, mask) == [o EXCEPT !.ep = DoStep(@, obs, rew, done, mask)]
(* insertion: the step becomes experience; a batch is owed if the cadence selects this step
   (the steps numbered 0, freq, 2 freq ...) and enough transitions are offered *)
OtInsert(c, o) ==
  LET o1 == [o EXCEPT !.steps = Append(@, [p |-> PosOfNext(c, @, o.count), term |-> o.ep.done, obs |-> o.ep.obs]),
                      !.count = CountAfter(c, o.steps, @), !.ep = DoPost(@), !.g = @ + 1]
  IN [o1 EXCEPT !.owed = (o.g % c.freq = 0) /\ OtSize(c, o1) >= c.bs]
OtTrain(o) == [o EXCEPT !.owed = FALSE, !.batches = Append(@, o.g - 1)]
OtFinished(c, o) == c.episodes > 0 /\ o.ep.mdp - c.mdp + 1 >= c.episodes /\ o.ep.pc = "over" /\ ~o.owed
=============================================================================
