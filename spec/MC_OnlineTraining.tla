------------------------- MODULE MC_OnlineTraining -------------------------
EXTENDS OnlineTraining, TLC, Json
CONSTANTS Freqs, Sizes, Caps, MaxLimit, MaxEpisodes, MaxSteps
VARIABLES c, o, script, elig
vars == <<c, o, script, elig>>
Init == /\ script = <<>> /\ elig = <<>>
        /\ \E f \in Freqs, b \in Sizes, k \in Caps, lim \in 0..MaxLimit, e \in 1..MaxEpisodes :
             c = [cap |-> k, stack |-> 1, n |-> 1, freq |-> f, bs |-> b, limit |-> lim, episodes |-> e, mdp |-> 0]
        /\ o = OtStart(c)
Reset == /\ o.ep.pc \in {"idle", "over"} /\ ~o.owed /\ ~OtFinished(c, o)
         /\ o' = OtReset(o, 0, <<>>) /\ UNCHANGED <<c, script, elig>>
Act == o.ep.pc = "ready" /\ ~o.owed /\ o' = OtAct(o, 0, 0) /\ UNCHANGED <<c, script, elig>>
Env == /\ o.ep.pc = "acted" /\ Len(script) < MaxSteps
       /\ \E d \in BOOLEAN : o' = OtEnv(o, Len(script) + 1, 0, d, <<>>) /\ script' = Append(script, d)
       /\ UNCHANGED <<c, elig>>
Insert == /\ o.ep.pc = "stepped" /\ o' = OtInsert(c, o)
          /\ elig' = Append(elig, OtSize(c, o'))
          /\ UNCHANGED <<c, script>>
Train == o.owed /\ o' = OtTrain(o) /\ UNCHANGED <<c, script, elig>>
Next == Reset \/ Act \/ Env \/ Insert \/ Train
Spec == Init /\ [][Next]_vars
(* after every insertion, the batches produced (or owed) are exactly the selected, served steps *)
Selected == SelectSeq([k \in 1..Len(elig) |-> IF (k - 1) % c.freq = 0 /\ elig[k] >= c.bs THEN k - 1 ELSE -1], LAMBDA x : x >= 0)
Cadence == IF o.owed THEN Append(o.batches, o.g - 1) = Selected ELSE o.batches = Selected
InsertedOnce == Len(o.steps) = Len(script) - (IF o.ep.pc = "stepped" THEN 1 ELSE 0)
Bounded == c.limit > 0 => Len(o.ep.recs) <= c.limit
EpisodesBounded == o.ep.mdp < c.episodes
SizeGrows == OtSize(c, o) <= c.cap
Emit == OtFinished(c, o) => PrintT("GEN " \o ToJson([c |-> c, script |-> script]))
=============================================================================
