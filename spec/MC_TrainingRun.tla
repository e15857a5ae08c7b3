---- MODULE MC_TrainingRun ----
(* Runs, interruptions at any batch, saves and resumptions of one job.
   lineage: the epochs whose learning is contained in the current state, in order. *)
EXTENDS TrainingRun, TLC, Json
CONSTANTS MaxRuns, MaxN, B
VARIABLES disk, dlin, run, rlin, pos, on, asked, dasked, hist
vars == <<disk, dlin, run, rlin, pos, on, asked, dasked, hist>>
Init == disk = Fresh /\ dlin = <<>> /\ run = Fresh /\ rlin = <<>> /\ pos = 0 /\ on = FALSE /\ asked = 0 /\ dasked = 0 /\ hist = <<>>
Start == /\ ~on /\ Len(hist) < MaxRuns
         /\ \E n \in 1..MaxN : /\ run' = Begin(disk, n) /\ asked' = (IF disk.clean \/ disk.done = dasked THEN disk.done + n ELSE dasked)
                               /\ hist' = Append(hist, [n |-> n, crash |-> <<>>])
         /\ rlin' = dlin /\ pos' = 0 /\ on' = TRUE /\ UNCHANGED <<disk, dlin, dasked>>
Batch == /\ on /\ ~Finished(run)
         /\ IF pos + 1 = B THEN /\ pos' = 0 /\ run' = EpochDone(run) /\ rlin' = Append(rlin, run.done)
                                /\ disk' = EpochDone(run) /\ dlin' = Append(rlin, run.done) /\ dasked' = asked
            ELSE pos' = pos + 1 /\ UNCHANGED <<run, rlin, disk, dlin, dasked>>
         /\ UNCHANGED <<on, asked, hist>>
(* also after the last epoch, before the state was saved *)
Crash == /\ on /\ on' = FALSE
         /\ hist' = [hist EXCEPT ![Len(hist)].crash = <<run.done, pos>>]
         /\ UNCHANGED <<disk, dlin, run, rlin, pos, asked, dasked>>
Save == /\ on /\ Finished(run) /\ on' = FALSE /\ disk' = Saved(run) /\ dlin' = rlin
        /\ dasked' = asked /\ UNCHANGED <<run, rlin, pos, asked, hist>>
Next == Start \/ Batch \/ Crash \/ Save
Spec == Init /\ [][Next]_vars
(* no epoch is lost, repeated or out of order in what was learned; a finished job did what was asked *)
EveryEpochOnce == /\ dlin = [i \in 1..disk.done |-> i - 1] /\ rlin = [i \in 1..run.done |-> i - 1]
NeverTooFar == on => run.done <= run.target
AsAsked == [][Save => disk'.done = asked /\ disk'.target = disk'.done]_vars
Emit == (~on /\ Len(hist) = MaxRuns) => PrintT("GEN " \o ToJson([runs |-> hist, b |-> B]))
====
