--------------------------- MODULE MC_Checkpoint ---------------------------
(* Design of the retention rule: interleave inserting, saving (numbers increasing, possibly with
   gaps, or the latest number again), and a crash that loses the memory and restores the newest checkpoint.              *)
EXTENDS Checkpoint, TLC, Json
CONSTANTS MaxIter, MaxOps
VARIABLES dir, buf, nxt, ops, log
vars == <<dir, buf, nxt, ops, log>>
Init == dir = <<>> /\ buf = 0 /\ nxt = 0 /\ ops = <<>> /\ log = <<>>
Op(o) == Len(ops) < MaxOps /\ ops' = Append(ops, o)
Add == Op([op |-> "add"]) /\ buf' = buf + 1 /\ UNCHANGED <<dir, nxt, log>>
Save(gap) == /\ nxt + gap <= MaxIter
             /\ Op([op |-> "save", i |-> nxt + gap])
             /\ dir' = SaveTo(dir, nxt + gap, buf)
             /\ nxt' = nxt + gap + 1 /\ log' = Append(log, <<nxt + gap, buf>>) /\ UNCHANGED buf
Restore == /\ Iters(dir) # {}
           /\ Op([op |-> "restore", i |-> Max(Iters(dir))])
           /\ buf' = dir[Max(Iters(dir))] /\ UNCHANGED <<dir, nxt, log>>
(* writing the latest number again replaces that checkpoint *)
Resave == /\ nxt > 0
          /\ Op([op |-> "save", i |-> nxt - 1])
          /\ dir' = SaveTo(dir, nxt - 1, buf)
          /\ log' = Append(log, <<nxt - 1, buf>>) /\ UNCHANGED <<buf, nxt>>
Next == Add \/ Restore \/ Resave \/ \E g \in {0, 1} : Save(g)
Spec == Init /\ [][Next]_vars
(* the newest Keep consecutive checkpoints are always there, with what was saved last under their number *)
Last(k) == \A j \in k+1..Len(log) : log[j][1] # log[k][1]
Retained ==
  \A k \in 1..Len(log) : Last(k) =>
    ((\A j \in k+1..Len(log) : log[j][1] # log[k][1] + Keep) <=> log[k][1] \in Iters(dir))
NewestKept == log # <<>> => \A k \in 1..Len(log) : log[k][1] > log[Len(log)][1] - Keep => log[k][1] \in Iters(dir)
Faithful == \A k \in 1..Len(log) : (Last(k) /\ log[k][1] \in Iters(dir)) => dir[log[k][1]] = log[k][2]
Emit == Len(ops) = MaxOps => PrintT("GEN " \o ToJson(ops))
=============================================================================
