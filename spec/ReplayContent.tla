--------------------------- MODULE ReplayContent ---------------------------
(* What a sampled transition must contain, defined on the history of inserted steps.
   A step is [p, term, id, obs, act, rew, x, ids, sc]; c adds gn (gamma = gn / 2^gs, so that
   gamma^k * 2^(gs*(n-1)) is an integer), evstack, timeline.                               *)
EXTENDS ReplayBuffer, TLC

RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)

Zeros(n) == [k \in 1..n |-> 0]

(* stack of a field for step i: oldest first, zero before the episode's start *)
StackOf(c, steps, i, F(_), zero) ==
  [k \in 1..c.stack |-> LET j == i - c.stack + k
                        IN IF j >= EpStart(steps, i) THEN F(steps[j]) ELSE zero]

ObsStack(c, steps, i) == StackOf(c, steps, i, LAMBDA s : s.obs, Zeros(Len(steps[1].obs)))
ActStack(c, steps, i) == StackOf(c, steps, i, LAMBDA s : s.act, Zeros(Len(steps[1].act)))
RewStack(c, steps, i) == StackOf(c, steps, i, LAMBDA s : <<s.rew>>, <<0>>)
XStack(c, steps, i)   == StackOf(c, steps, i, LAMBDA s : <<s.x>>, <<0>>)

(* sum of gamma^k r, scaled by 2^(gs*(n-1)) *)
RECURSIVE SumFrom(_, _, _, _)
SumFrom(c, steps, i, k) ==
  IF k = NumSteps(c, steps, i) THEN 0
  ELSE Pow(c.gn, k) * Pow(2, c.gs * (c.n - 1 - k)) * steps[i+k].rew + SumFrom(c, steps, i, k + 1)
NStepReward(c, steps, i) == SumFrom(c, steps, i, 0)

(* --- clause-by-clause judgement of one returned row ----------------------------------- *)
(* r.nxt* fields are lists: one entry (non timeline) or one per step of the window           *)
RowVerdict(c, steps, i, r) ==
  LET m == NumSteps(c, steps, i)
      done == Ended(c, steps, i)
      (* how many of the following steps have defined contents *)
      nn == IF c.timeline THEN (IF done THEN m - 1 ELSE m) ELSE (IF done THEN 0 ELSE 1)
      after(j) == IF c.timeline THEN i + j ELSE i + m
  IN
  CASE r.id # steps[i].id -> "row is another step"
    [] r.state # ObsStack(c, steps, i) -> "state: expected " \o ToString(ObsStack(c, steps, i))
    [] r.act[Len(r.act)] # steps[i].act -> "action"
    [] c.evstack /\ r.act # ActStack(c, steps, i) -> "stacked action"
    [] r.x[Len(r.x)] # <<steps[i].x>> -> "extra field"
    [] c.evstack /\ r.x # XStack(c, steps, i) -> "stacked extra field"
    [] r.term # done -> "terminal flag"
    [] r.step # m -> "number of steps: expected " \o ToString(m)
    [] c.timeline /\ (Len(r.rewl) # m \/ \E j \in 1..Len(r.rewl) : r.rewl[j][Len(r.rewl[j])] # <<steps[i+j-1].rew>>)
         -> "timeline rewards"
    [] c.timeline /\ c.evstack /\ \E j \in 1..m : r.rewl[j] # RewStack(c, steps, i + j - 1)
         -> "stacked timeline rewards"
    [] ~c.timeline /\ ~c.evstack /\ r.rew # NStepReward(c, steps, i)
         -> "n-step reward: expected " \o ToString(NStepReward(c, steps, i))
    [] ~c.timeline /\ c.evstack /\ r.rewl[1] # RewStack(c, steps, i) -> "stacked reward"
    [] Len(r.nstate) # (IF c.timeline THEN m ELSE 1) -> "length of the next lists"
    [] \E j \in 1..nn : r.nstate[j] # ObsStack(c, steps, after(j)) -> "next state"
    [] \E j \in 1..nn : r.nact[j][Len(r.nact[j])] # steps[after(j)].act -> "next action"
    [] \E j \in 1..nn : r.nrew[j][Len(r.nrew[j])] # <<steps[after(j)].rew>> -> "next reward"
    [] \E j \in 1..nn : r.nx[j][Len(r.nx[j])] # <<steps[after(j)].x>> -> "next extra field"
    [] c.evstack /\ \E j \in 1..nn : r.nact[j] # ActStack(c, steps, after(j)) -> "stacked next action"
    [] c.idl /\ r.idl # steps[i].idl -> "id list"
    [] c.idl /\ r.idsc # steps[i].idsc -> "id score list"
    [] c.idl /\ nn > 0 /\ r.nidl # steps[after(1)].idl -> "next id list"
    [] c.idl /\ nn > 0 /\ r.nidsc # steps[after(1)].idsc -> "next id score list"
    [] OTHER -> ""
=============================================================================
